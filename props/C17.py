"""C17: upload payload header."""
from vc.spec import *
from vc import pbio
TUS = ['fcp/confidentialcompute/client_payload.cc']
NS = 'fcp::confidential_compute::'
ASSUMPTIONS = ['protobuf coded streams and message serialization behave as documented (lib/vc/pbio.py lists the contracts)', 'serialized headers are shorter than 2^31 bytes']
MAGIC = z3.StringVal('CAv1')
def fields(g, s, h): return [g.rget(s, h, n, None) for n in ('encrypted_symmetric_key', 'encapsulated_public_key', 'serialized_blob_header', 'is_gzip_compressed')]
PB = 'fcp::confidentialcompute::AggregationClientPayloadHeader'
def wellformed(g):
    s = g.sort_of(rec_ty(PB)); return z3.Function('parse.' + s.name(), z3.StringSort(), s), z3.Function('parses.' + s.name(), z3.StringSort(), z3.BoolSort())
def encoded(c, g):
    f = c.fn(NS + 'EncodeClientPayload'); st = start(g, f); h = g.fresh(st, f.ps[0][2], 'header', exact_name=True); ct = z3.String('ciphertext')
    lv = g.new_root(st, 'header', h); hf = fields(g, st, g.read(st, lv)); out = call(g, st, f, [g.read(st, lv), ct]); cover(g, out); no_abort(g, 'encoding never aborts')
    return hf, ct, out
def round_trip(c):
    "ensures: what encoding produces meets the acceptance condition of the contract of decode, whose results are then the header and payload given (data below 2^31 bytes)"
    g = c.engine(TUS, strings='seq'); g.safety = {'null', 'index'}; pbio.install(g)
    hf, ct, out = encoded(c, g)
    for s, enc in out:
        n = [a[0] for k, _, a, _ in s.trace if k == 'wrote-varint'][-1]; s.assume(z3.Length(enc) < 2 ** 31); v = pbio.VAR(n); L = z3.Length(enc); k = 4 + z3.Length(v); rest = z3.SubString(enc, 4, L - 4)
        g.oblige(s, z3.PrefixOf(MAGIC, enc), 'the encoded data starts with the format marker')
        g.oblige(s, z3.PrefixOf(v, rest), 'the length of the header follows')
        # varint contract: rest starts with varint(n), so it reads back as n over len(varint(n)) characters
        hdr = z3.SubString(enc, k, n); par, ok = wellformed(g)
        g.oblige(s, z3.And(n >= 0, n <= L - k, ok(hdr)), 'encoded data is accepted')
        h = RecV(rec_ty(PB), {}, par(hdr)); get = lambda x: g.rget(s, h, x, None)
        for what, a, b in zip(('wrapped key', 'public key', 'blob header'), hf, map(get, ('encrypted_symmetric_key', 'encapsulated_public_key', 'blob_header'))): g.oblige(s, a == b, 'decoding restores the %s' % what)
        g.oblige(s, hf[3] == (get('compression_type') == 2), 'decoding restores the compression flag')
        g.oblige(s, z3.SubString(enc, k + n, L - k - n) == ct, 'decoding leaves exactly the payload')
def decode(c):
    "for arbitrary data: accepted iff marker, length prefix, complete and well-formed header; then the view is what follows the header"
    g = c.engine(TUS, strings='seq'); g.safety = {'null', 'index'}; pbio.install(g)
    f = c.fn(NS + 'DecodeAndConsumeClientPayloadHeader'); st = start(g, f); d = z3.String('data'); lv = g.new_root(st, 'data', d)
    out = call(g, st, f, [lv]); cover(g, out); no_abort(g, 'decoding never aborts on any data')
    L = z3.Length(d); par, wf = wellformed(g)
    body = z3.SubString(d, 4, L - 4)
    for s, r in out:
        rest = z3.String('rest'); s.assume(rest == body); hdr = z3.String('hdr'); n = pbio.VVAL(rest); k = 4 + pbio.VLEN(rest); s.assume(hdr == z3.SubString(d, k, n))
        good = z3.And(z3.PrefixOf(MAGIC, d), L < 2 ** 31, pbio.VOK(rest), n <= L - k, wf(hdr))
        g.oblige(s, z3.Implies(r.code == 0, good), 'only data with marker, length and a complete well-formed header is accepted')
        g.oblige(s, z3.Implies(z3.And(good, z3.Implies(pbio.VOK(rest), z3.And(pbio.VLEN(rest) >= 1, n >= 0, n < 2 ** 32))), r.code == 0), 'such data is accepted')
        if not isinstance(r.val, tuple):
            h = RecV(rec_ty(PB), {}, par(hdr)); get = lambda x: g.rget(s, h, x, None)
            for what, a, b in zip(('wrapped key', 'public key', 'blob header', 'compression flag'), fields(g, s, r.val), [get('encrypted_symmetric_key'), get('encapsulated_public_key'), get('blob_header'), get('compression_type') == 2]):
                g.oblige(s, z3.Implies(r.code == 0, a == b), 'the %s returned is the one in the header' % what)
        g.oblige(s, z3.Implies(r.code == 0, g.read(s, lv) == z3.SubString(d, k + n, L - k - n)), 'the view becomes exactly what follows the header')
UNITS = [round_trip, decode]
HARNESS = dict(main='C17_harness.cc', srcs=['fcp/confidentialcompute/client_payload.cc'], protos=['fcp/protos/confidentialcompute/aggregation_client_payload.proto'], secs=5)
