"""Concrete harness for C29: the real service behind a real HTTP server on the loopback interface, and called directly."""
import gzip, http, http.client, http.server, os, random, subprocess, sys, threading, time, urllib.parse
seed, secs = int(sys.argv[1]), float(sys.argv[2]); R = random.Random(seed); REPO = os.environ.get('VERIF_REPO', '/repo'); T0 = time.time(); cases = 0; seen = set(); bad = 0
sys.dont_write_bytecode = True
G = os.path.join(os.environ.get('TMPDIR', '.'), 'py'); os.makedirs(G + '/fcp/demo')
import grpc_tools
SP = os.path.dirname(os.path.dirname(grpc_tools.__file__))
r = subprocess.run([sys.executable, '-m', 'grpc_tools.protoc', '-I' + REPO, '-I' + SP, '--python_out=' + G, REPO + '/fcp/protos/federatedcompute/common.proto', REPO + '/fcp/protos/federatedcompute/eligibility_eval_tasks.proto'], capture_output=True, text=True)
if r.returncode: print(r.stderr); sys.exit(3)
for m in ('http_actions', 'media'): os.symlink('%s/fcp/demo/%s.py' % (REPO, m), '%s/fcp/demo/%s.py' % (G, m))
sys.path.insert(0, G)
try:
    from fcp.demo import http_actions, media
    from fcp.protos.federatedcompute import common_pb2
except Exception as ex: print('import failed: %s' % ex); sys.exit(3)
def fail(key, *desc):
    global bad; bad += 1
    if key not in seen: seen.add(key); print('FAIL %s %s' % (key, ' '.join(str(x)[:400] for x in desc).replace('\n', ' ')), flush=True)
def check(key, ok, *desc):
    global cases; cases += 1
    if not ok: fail(key, *desc)
def blob(): return bytes(R.randrange(256) for _ in range(R.choice([0, 1, 5, 40, 300])))
NAMES = ['a', 'b', 'file name', 'x%y', 'käse', 'a+b', 'q?x=1', 'dot.ext', 'A', 'a#1']
def make():
    s = media.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://host/'))
    return s
class Http:
    def __init__(self, svc):
        class H(http_actions.create_handler(svc)):
            def log_message(self, *a): pass
        self.srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H); self.srv.daemon_threads = True; self.t = threading.Thread(target=self.srv.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True); self.t.start()
    def req(self, method, path, body=None, headers={}):
        c = http.client.HTTPConnection('127.0.0.1', self.srv.server_port, timeout=20); c.request(method, path, body=body, headers=headers); r = c.getresponse(); d = r.read(); c.close(); return r.status, d, r
    def close(self): self.srv.shutdown(); self.srv.server_close()
def direct(f):
    try: return 200, f()
    except http_actions.HttpError as e: return int(e.code), None
def sequence(svc, web):
    """random requests against a reference model, by HTTP or by call"""
    ups, groups, hist = {}, [], []; closed = []; used = []
    def up(n, body):
        if web is None: return direct(lambda: svc.upload(body, n))[0]
        z = R.random() < .3; return web.req('POST', '/upload/v1/media/%s?upload_protocol=raw' % urllib.parse.quote(n, safe=''), gzip.compress(body) if z else body, {'Content-Encoding': 'gzip'} if z else {})[0]
    def down(g, n):
        if web is None: c, x = direct(lambda: svc.download(b'', g, n)); return (c, x and x.body, x and x.headers['Content-Type'])
        c, d, r = web.req('GET', '/data/%s/%s' % (g, urllib.parse.quote(n, safe=''))); return c, d, r.getheader('Content-Type')
    for _ in range(R.randrange(5, 30) if web is None else R.randrange(4, 12)):
        k = R.randrange(9)
        if k == 0: n = svc.register_upload(); check('fresh-name', n not in ups and n not in used, n); ups[n] = None; hist.append('register')
        elif k in (1, 2):
            n = R.choice(list(ups) + used + ['unknown', '']) if (web is None) else R.choice(list(ups) + used + ['unknown']); b = blob(); c = up(n, b); ok = n in ups and ups[n] is None; hist.append('upload %d bytes -> %d' % (len(b), c))
            check('upload-accept', (c == 200) == ok, hist, 'accepted' if c == 200 else 'refused'); check('upload-error', ok or c == http.HTTPStatus.UNAUTHORIZED, hist)
            if ok: ups[n] = b
        elif k == 3 and ups:
            n = R.choice(list(ups)); d = svc.finalize_upload(n); check('finalize', d == ups[n], hist, d, 'expected', ups[n]); del ups[n]; used.append(n); hist.append('finalize')
            try: svc.finalize_upload(n); fail('finalize-twice', hist)
            except KeyError: pass
        elif k == 4 and len(groups) < 4: cm = svc.create_download_group(); g = cm.__enter__(); name = g.prefix.rstrip('/').split('/')[-1]; check('prefix', g.prefix == 'http://host/data/%s/' % name and name not in [x[2] for x in groups] + closed, g.prefix); groups.append((cm, g, name, {})); hist.append('group')
        elif k in (5, 6) and groups:
            cm, g, name, files = R.choice(groups); n = R.choice(NAMES); b = blob(); t = R.choice([None, 'text/plain', 'application/x-protobuf']); hist.append('add ' + n)
            try: p = g.add(n, b, t) if t else g.add(n, b); check('add-twice', n not in files, hist); check('add-path', p == g.prefix + n, p, 'for', g.prefix, n); files.setdefault(n, (b, t or 'application/octet-stream'))
            except KeyError: check('add', n in files, hist)
        elif k == 7:
            gn = R.choice([x[2] for x in groups] + closed + ['nogroup']); n = R.choice(NAMES); files = dict(next((x[3] for x in groups if x[2] == gn), {})); c, d, t = down(gn, n); hist.append('get %s -> %d' % (n, c))
            if n in files: check('download', (c, d, t) == (200,) + files[n], hist, c, d, t, 'expected', files[n])
            else: check('download-refused', c == http.HTTPStatus.NOT_FOUND, hist, c)
        elif k == 8 and groups:
            cm, g, name, files = groups.pop(R.randrange(len(groups)))
            try: cm.__exit__(None, None, None)
            except Exception as ex: fail('close', hist, repr(ex))
            closed.append(name); hist.append('close')
    for cm, g, name, files in groups:
        for n, (b, t) in files.items(): c, d, tt = down(name, n); check('download', (c, d, tt) == (200, b, t), hist, n)
    for n, v in ups.items(): check('finalize', svc.finalize_upload(n) == v, hist)
    for cm, *_ in groups: cm.__exit__(None, None, None)
def race(svc):
    """many threads upload to one slot: exactly one wins, and its body is what is stored"""
    sys.setswitchinterval(1e-6); n = svc.register_upload(); won = []; bar = threading.Barrier(6)
    def go(i):
        bar.wait()
        for k in range(3):
            b = b'%d-%d' % (i, k)
            if direct(lambda: svc.upload(b, n))[0] == 200: won.append(b)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(6)]; [t.start() for t in ts]; [t.join() for t in ts]; sys.setswitchinterval(0.005)
    d = svc.finalize_upload(n); check('upload-race', len(won) == 1 and d == won[0], 'accepted', won, 'stored', d)
try:
    svc = make(); web = Http(svc)
    # request bodies that are not valid gzip are refused and leave the slot usable
    n = svc.register_upload(); z = gzip.compress(b'hello world')
    for b in (z[:-4], z[:8], b'\x00\x01', z[:12] + b'\xff\xff' + z[14:]): c = web.req('POST', '/upload/v1/media/%s?upload_protocol=raw' % n, b, {'Content-Encoding': 'gzip'})[0]; check('bad-gzip', c == 400, 'status', c, 'for', b)
    check('slot-after-bad-gzip', web.req('POST', '/upload/v1/media/%s?upload_protocol=raw' % n, b'fine')[0] == 200 and svc.finalize_upload(n) == b'fine', n)
    for p in ('/data/x', '/data/a/b/c', '/upload/v1/media/x', '/', '/data/' + n + '/'): check('unknown-path', web.req('GET', p)[0] == 404, p)
    try:
        with svc.create_download_group() as g: g.add('f', b'1'); name = g.prefix.split('/')[-2]; raise ZeroDivisionError()
    except ZeroDivisionError: pass
    check('closed-after-error', direct(lambda: svc.download(b'', name, 'f'))[0] == 404, 'group left by an exception is still served')
    for _ in range(10): race(svc)
    while time.time() - T0 < secs:
        for _ in range(20): sequence(make() if R.random() < .5 else svc, None)
        sequence(svc, web)
    web.close()
except Exception as ex:
    import traceback; fail('unexpected', traceback.format_exc()[-600:])
print('STAT cases %d' % cases); sys.stdout.flush(); os._exit(1 if bad else 0)
