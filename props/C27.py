"""C27: conversions between representations of a status."""
from vc.spec import *
TUS = ['fcp/base/status_converters.cc', 'fcp/client/http/http_client_util.cc']
B, H = 'fcp::base::', 'fcp::client::http::'
ASSUMPTIONS = ['grpc::Status holds exactly the code and message it is made from', 'any gRPC status returned other than by its constructor is the constant for success']
def canon(x): return z3.If(z3.And(x >= 0, x <= 16), x, 2)
def codes(fn):
    def f(c):
        g = c.engine(TUS); g.safety = {'overflow'}; f = c.fn(B + fn); st = start(g, f); ar = params(g, st, f); x = g.val(st, ar[0]); out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts')
        for s, r in out: g.oblige(s, g.val(s, r) == canon(x), 'every canonical code is kept, any other becomes unknown')
    f.__name__ = fn; f.__doc__ = 'ensures the numeric code is kept for all canonical codes and unknown for others'; return f
GS = 'grpc::Status'
def engine(c):
    g = c.engine(TUS); mk = lambda x, y: RecV(rec_ty(GS), {'$code': x, '$msg': y})
    def ctor(g, s, obj, a, e):
        if not a: return [(s, mk(z3.IntVal(0), g.strlit('')))]
        v = g.val(s, a[0])
        if isinstance(v, RecV): return [(s, v)]
        return [(s, mk(v, g.val(s, a[1])))]
    g.contracts[GS + '::Status'] = ctor; fld = lambda n: lambda g, s, obj, a, e: [(s, g.read(s, obj).fields[n])]; g.contracts[GS + '::error_code'] = fld('$code'); g.contracts[GS + '::error_message'] = fld('$msg'); g.contracts[GS + '::ok'] = lambda g, s, obj, a, e: [(s, g.read(s, obj).fields['$code'] == 0)]
    return g, mk
def from_grpc(c):
    "ensures code and message of a gRPC status are kept; the message of a success is empty"
    g, mk = engine(c); f = c.fn(B + 'FromGrpcStatus'); st = start(g, f); x = z3.Int('code'); y = g.fresh(st, STRING, 'text'); out = call(g, st, f, [g.new_root(st, 'status', mk(x, y))]); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out: g.oblige(s, r.code == canon(x), 'the code is kept'); g.oblige(s, z3.Implies(r.code != 0, r.msg == y), 'the message is kept')
def to_grpc(c):
    "ensures code and message of a status are kept, success becoming the gRPC success"
    g, mk = engine(c); f = c.fn(B + 'ToGrpcStatus'); st = start(g, f); ar = params(g, st, f); v = g.val(st, ar[0]); out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out:
        r = g.val(s, r); ok = not isinstance(r, RecV) or '$code' not in r.fields
        if ok: g.oblige(s, v.code == 0, 'the constant for success is returned for a success only')   # grpc::Status::OK
        else: g.oblige(s, r.fields['$code'] == canon(v.code), 'the code is kept'); g.oblige(s, z3.Implies(v.code != 0, r.fields['$msg'] == v.msg), 'the message is kept')
def from_rpc(c):
    "ensures code and message of a protocol-buffer status are kept, an unknown code becoming unknown"
    g = c.engine(TUS); f = c.fn(H + 'ConvertRpcStatusToAbslStatus'); st = start(g, f); ar = params(g, st, f); v = g.val(st, ar[0]); T_ = dict(g.rec_fields(v.ty)); x = g.val(st, g.rget(st, v, 'code', T_['code'])); y = g.val(st, g.rget(st, v, 'message', T_['message'])); out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out: g.oblige(s, r.code == canon(x), 'the code is kept'); g.oblige(s, z3.Implies(r.code != 0, r.msg == y), 'the message is kept')
def to_rpc(c):
    "ensures code and message of a status are kept in a protocol-buffer status without details"
    g = c.engine(TUS); f = c.fn(H + 'ConvertAbslStatusToRpcStatus'); st = start(g, f); ar = params(g, st, f); v = g.val(st, ar[0]); out = call(g, st, f, ar); cover(g, out); no_abort(g, 'never aborts')
    for s, r in out:
        r = g.val(s, r); T_ = dict(g.rec_fields(r.ty)); g.oblige(s, g.val(s, g.rget(s, r, 'code', T_['code'])) == v.code, 'the code is kept'); g.oblige(s, g.val(s, g.rget(s, r, 'message', T_['message'])) == v.msg, 'the message is kept')
        for n, t in T_.items():
            if kind_of(t) == 'vec': g.oblige(s, g.rget(s, r, n, t).len == 0, 'no details')
UNITS = [codes('FromGrpcStatusCode'), codes('ToGrpcStatusCode'), from_grpc, to_grpc, from_rpc, to_rpc]
HARNESS = dict(main='C27_harness.cc', srcs=TUS, protos=['google/rpc/status.proto', 'google/rpc/code.proto'], libs=['-lgrpc++'], secs=2)
