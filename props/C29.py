"""C29: upload and download slots of the demo media service."""
import http, types
from vc.spec import *
from vc import pysym as ps
from vc.pysym import Sym, Dict, World, Lock, lift, OptB, S
from vc.driver import REPO
ASSUMPTIONS = ['names drawn with uuid4 were never drawn before and are not known to other callers in advance', 'dictionary operations and locks of the interpreter behave as documented',
               'rely: between the critical sections of a call other threads may change the tables arbitrarily, except that an open group is closed by its owner only']
Resp = z3.Datatype('Resp'); Resp.declare('mk', ('body', S), ('ctype', S), ('clen', z3.IntSort())); Resp = Resp.create()
Grp = z3.Datatype('Grp'); Grp.declare('mk', ('dom', z3.ArraySort(S, z3.BoolSort())), ('val', z3.ArraySort(S, Resp))); Grp = Grp.create()
EMPTY = z3.K(S, z3.BoolVal(False))
class Uploads(Dict):
    def __init__(self): super().__init__('uploads', OptB)
    def into(self, v): return OptB.none if v is None else OptB.some(lift(v))
    def out(self, k, v): return None if ps.R.fork(OptB.is_none(v)) else Sym(OptB.get(v))
class Sub(Dict):
    """the files of one group inside the table of groups"""
    def __init__(self, parent, k, http_actions): self.__dict__.update(nm='files', vs=Resp, parent=parent, k=lift(k), ha=http_actions)
    w = property(lambda s: s.parent.w)
    def g(self): return self.parent.val[self.k]
    dom = property(lambda s: Grp.dom(s.g()), lambda s, x: s.put(Grp.mk(x, Grp.val(s.g()))))
    val = property(lambda s: Grp.val(s.g()), lambda s, x: s.put(Grp.mk(Grp.dom(s.g()), x)))
    def put(self, x): self.parent.val = z3.Store(self.parent.val, self.k, x)
    def into(self, v):
        if not isinstance(v, self.ha.HttpResponse): raise ps.Unsupported_('stored value')
        h = dict(v.headers); n = h.pop('Content-Length', None); t = h.pop('Content-Type', None)
        if h or n is None or t is None: raise ps.Unsupported_('headers of a stored file')
        return Resp.mk(lift(v.body), lift(t), n.e if isinstance(n, ps.SymInt) else z3.IntVal(n))
    def out(self, k, v): return self.ha.HttpResponse(body=Sym(Resp.body(v)), headers={'Content-Length': ps.SymInt(Resp.clen(v)), 'Content-Type': Sym(Resp.ctype(v))})
class Downloads(Dict):
    def __init__(self, ha): super().__init__('downloads', Grp); self.ha = ha
    def into(self, v):
        if isinstance(v, dict) and not v: return Grp.mk(EMPTY, z3.Const('no.files', z3.ArraySort(S, Resp)))
        raise ps.Unsupported_('group value')
    def out(self, k, v): return Sub(self, k, self.ha)
class Env:
    def __init__(self, c):
        g = ps.G(); c.g = g; self.g = g
        pk = lambda n: ps.Stub(n)
        ha = ps.load(REPO + '/fcp/demo/http_actions.py', 'fcp.demo.http_actions', {n: pk(n) for n in ('absl', 'google', 'google.api', 'google.protobuf', 'fcp', 'fcp.demo')}, {})
        demo = types.ModuleType('fcp.demo'); demo.http_actions = ha; fcp = types.ModuleType('fcp'); fcp.demo = demo; self.ha = ha; self.fresh = 0
        pr = pk('fcp.protos.federatedcompute'); env = self
        self.mod = ps.load(REPO + '/fcp/demo/media.py', 'fcp.demo.media', {'fcp': fcp, 'fcp.demo': demo, 'fcp.demo.http_actions': ha, 'fcp.protos': pk('fcp.protos'), 'fcp.protos.federatedcompute': pr}, {'len': ps.symlen})
        u = types.ModuleType('uuid'); self.tokens = []
        def uuid4(): t = 'fresh-name-%d' % len(self.tokens); self.tokens.append(t); return t
        u.uuid4 = uuid4; self.mod.uuid = u; g.assumptions.update(ASSUMPTIONS)
        g.py_fns.update('%s (fcp/demo/media.py)' % n for n in ('Service.register_upload', 'Service.upload', 'Service.finalize_upload', 'Service.download', 'Service.create_download_group', 'DownloadGroup.add'))
    def service(self, run, rely=lambda w: []):
        """a service whose tables hold arbitrary contents; the tables are told apart by what registering and opening a group do to them"""
        self.tokens.clear()
        svc = self.mod.Service(lambda: types.SimpleNamespace(target_uri_prefix='prefix/'))
        tabs = [k for k, v in vars(svc).items() if isinstance(v, dict)]; locks = [k for k, v in vars(svc).items() if hasattr(v, 'acquire')]
        if len(tabs) != 2 or len(locks) != 1: raise Unsupported('the tables of the service were not recognised')
        probe = self.mod.Service(lambda: types.SimpleNamespace(target_uri_prefix='p/')); probe.register_upload(); up = [k for k in tabs if len(getattr(probe, k))]
        if len(up) != 1: raise Unsupported('the upload table was not recognised')
        dn = [k for k in tabs if k != up[0]][0]; self.tokens.clear()
        self.up = Uploads(); self.dn = Downloads(self.ha); w = World(run, [self.up, self.dn], rely); self.up.w = self.dn.w = w; self.w = w
        for d in (self.up, self.dn): d.havoc(run)
        setattr(svc, up[0], self.up); setattr(svc, dn, self.dn); setattr(svc, locks[0], Lock(w)); return svc
    def run(self, f):
        """-> ('ok', value) or ('raised', exception)"""
        try: return 'ok', f()
        except ps.Unsupported_ as ex: raise Unsupported(str(ex))
        except Exception as ex: return 'raised', ex
def same(a, b): return z3.And(a[0] == b[0], a[1] == b[1])
def quiet(w, skip=None, which=(0, 1)): return z3.And([T] + [same(p[i], q[i]) for n, (p, q) in enumerate(w.sections) if n != skip for i in which])
def one_of(w, cond): return z3.Or([F] + [cond(n, p, q) for n, (p, q) in enumerate(w.sections)])
def put(m, k, v): return (z3.Store(m[0], k, True), z3.Store(m[1], k, v))
def upload(c):
    "upload stores the body iff the name is registered and still empty, in one critical section; else it is refused with 401 and nothing changes"
    e = Env(c); name, body = Sym(z3.String('name')), Sym(z3.String('body'))
    def path(r):
        svc = e.service(r); what, v = e.run(lambda: svc.upload(body, name)); w = e.w; k = name.e
        free = lambda m: z3.And(m[0][k], OptB.is_none(m[1][k]))
        if what == 'ok':
            r.oblige(one_of(w, lambda n, p, q: z3.And(free(p[0]), q[0][0] == p[0][0], q[0][1] == z3.Store(p[0][1], k, OptB.some(body.e)), same(p[1], q[1]), quiet(w, n))), 'an accepted body is stored in a registered slot that was still empty, and only there')
            r.oblige(z3.BoolVal(isinstance(v, e.ha.HttpResponse)) , 'an accepted upload is answered')
        else:
            r.oblige(z3.BoolVal(isinstance(v, e.ha.HttpError) and v.code == http.HTTPStatus.UNAUTHORIZED), 'a refused upload is answered with the documented error')
            r.oblige(z3.And(quiet(w), one_of(w, lambda n, p, q: z3.Not(free(p[0])))), 'an upload is refused only if the slot is unknown or used, and then changes nothing')
    ps.explore(e.g, 'Service.upload', path)
def registration(c):
    "register_upload adds one new empty slot; finalize_upload returns what the slot holds and removes it, so it cannot be used again"
    e = Env(c); name = Sym(z3.String('name'))
    def path(r):
        svc = e.service(r, lambda w: [z3.Not(w.dicts[0].dom[z3.StringVal('fresh-name-0')])]); what, v = e.run(svc.register_upload); w = e.w
        r.oblige(z3.BoolVal(what == 'ok' and isinstance(v, str) and [v] == e.tokens), 'a newly drawn name is returned')
        k = z3.StringVal(v if isinstance(v, str) else ''); r.oblige(one_of(w, lambda n, p, q: z3.And(same(q[0], put(p[0], k, OptB.none)), same(p[1], q[1]), quiet(w, n))), 'registering adds one empty slot under that name')
    ps.explore(e.g, 'Service.register_upload', path)
    def path(r):
        svc = e.service(r); what, v = e.run(lambda: svc.finalize_upload(name)); w = e.w; k = name.e
        if what == 'ok':
            res = OptB.none if v is None else OptB.some(lift(v))
            r.oblige(one_of(w, lambda n, p, q: z3.And(p[0][0][k], p[0][1][k] == res, q[0][0] == z3.Store(p[0][0], k, False), same(p[1], q[1]), quiet(w, n))), 'finalizing returns what the slot holds and removes the slot')
        else:
            r.oblige(z3.BoolVal(isinstance(v, KeyError)), 'finalizing an unknown slot is an error'); r.oblige(z3.And(quiet(w), one_of(w, lambda n, p, q: z3.Not(p[0][0][k]))), 'finalizing fails only for unknown slots and then changes nothing')
    ps.explore(e.g, 'Service.finalize_upload', path)
def download(c):
    "download returns exactly the registered file of that group, else 404; tables unchanged"
    e = Env(c); grp, name = Sym(z3.String('group')), Sym(z3.String('name'))
    def path(r):
        svc = e.service(r); what, v = e.run(lambda: svc.download(b'', grp, name)); w = e.w; k, f = grp.e, name.e
        there = lambda m: z3.And(m[0][k], Grp.dom(m[1][k])[f])
        if what == 'ok':
            h = dict(v.headers); x = Grp.val
            r.oblige(z3.And(quiet(w), one_of(w, lambda n, p, q: z3.And(there(p[1]), lift(v.body) == Resp.body(x(p[1][1][k])[f]), lift(h.get('Content-Type')) == Resp.ctype(x(p[1][1][k])[f])))), 'a download returns the bytes and type registered under that group and name')
        else:
            r.oblige(z3.BoolVal(isinstance(v, e.ha.HttpError) and v.code == http.HTTPStatus.NOT_FOUND), 'a missing file is answered with the documented error')
            r.oblige(z3.And(quiet(w), one_of(w, lambda n, p, q: z3.Not(there(p[1])))), 'a download is refused only if the group or file is not there')
    ps.explore(e.g, 'Service.download', path)
def groups(c):
    "opening adds one empty group under a new name, adding a file stores it once under its name, leaving (also on errors) removes exactly that group"
    e = Env(c); name, data, ct = Sym(z3.String('name')), Sym(z3.String('data')), Sym(z3.String('content_type')); K = z3.StringVal('fresh-name-0')
    class Oops(Exception): pass
    for fails in (False, True):
        def path(r):
            open_ = [False]; svc = e.service(r, lambda w: [w.dicts[1].dom[K] if open_[0] else z3.Not(w.dicts[1].dom[K])]); w = e.w
            what, cm = e.run(svc.create_download_group); what, grp = e.run(cm.__enter__); r.oblige(z3.BoolVal(what == 'ok'), 'a group can always be opened'); m0 = len(w.sections); open_[0] = True
            r.oblige(one_of(w, lambda n, p, q: z3.And(q[1][0] == z3.Store(p[1][0], K, True), Grp.dom(q[1][1][K]) == EMPTY, q[1][1] == z3.Store(p[1][1], K, q[1][1][K]), same(p[0], q[0]), quiet(w, n))), 'opening adds one empty group')
            r.oblige(z3.BoolVal(grp.prefix == 'prefix/data/fresh-name-0/'), 'the path prefix is that of the group')
            del w.sections[:]
            what, v = e.run(lambda: grp.add(name, data, ct)); f = name.e; st = Resp.mk(data.e, ct.e, z3.Length(data.e)); G = lambda m: m[1][K]
            if what == 'ok':
                r.oblige(one_of(w, lambda n, p, q: z3.And(p[1][0][K], z3.Not(Grp.dom(G(p[1]))[f]), q[1][0] == p[1][0], Grp.dom(G(q[1])) == z3.Store(Grp.dom(G(p[1])), f, True), Grp.val(G(q[1])) == z3.Store(Grp.val(G(p[1])), f, st), q[1][1] == z3.Store(p[1][1], K, G(q[1])), same(p[0], q[0]), quiet(w, n))), 'a file is stored under a name not used in the group before, with its type and length')
                r.oblige(lift(v) == z3.Concat(z3.StringVal(grp.prefix), f), 'the path of a file is the prefix and its name')
            else:
                r.oblige(z3.BoolVal(isinstance(v, KeyError)), 'a second file of the same name is an error'); r.oblige(z3.And(quiet(w), one_of(w, lambda n, p, q: Grp.dom(G(p[1]))[f])), 'adding fails only if the name is taken, and then changes nothing')
            del w.sections[:]
            what, v = e.run(lambda: cm.__exit__(*((Oops, Oops(), None) if fails else (None, None, None))))
            if fails: r.oblige(z3.BoolVal(what == 'raised' and isinstance(v, Oops) or what == 'ok' and not v), 'errors of the caller are passed on')
            r.oblige(one_of(w, lambda n, p, q: z3.And(q[1][0] == z3.Store(p[1][0], K, False), same(p[0], q[0]), quiet(w, n))), 'leaving removes exactly that group')
            x = z3.String('other'); r.oblige(one_of(w, lambda n, p, q: z3.Implies(x != K, q[1][1][x] == p[1][1][x])), 'other groups stay as they are')
        ps.explore(e.g, 'Service.create_download_group' + (' left by an error' if fails else ''), path)
UNITS = [upload, registration, download, groups]
HARNESS = dict(py=['/opt/fcp/pyvenv/bin/python', V + '/props/C29_harness.py'], secs=6)
