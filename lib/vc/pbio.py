"""Assumed contracts of protobuf's coded streams (documented behaviour), for string theory mode."""
import z3
from .program import *
from .values import *
I, SS, BS = z3.IntSort(), z3.StringSort(), z3.BoolSort()
VAR = z3.Function('varint', I, SS); VOK = z3.Function('varint.ok', SS, BS); VVAL = z3.Function('varint.val', SS, I); VLEN = z3.Function('varint.len', SS, I)
def region(data, pos, limit): return z3.SubString(data, pos, limit - pos)
def install(g):
    P = 'google::protobuf::io::'; g.varints = []; g.proto_regions = []
    g.assumptions.add('protobuf coded streams behave as documented: varints read back what was written, limits bound reads, a message parse consumes its region exactly when the region is a well-formed message')
    g.models['AsStringLiteral'] = None
    def ctor_in(g, st, t, args, e):
        p = g.val(st, args[0]); n = g.val(st, args[1]) if len(args) > 1 else None
        s = p if z3.is_expr(p) else g.read(st, p.lv)
        if n is None or not z3.is_expr(s): raise Unsupported('coded stream over this buffer')
        g.safe(st, 'index', z3.And(n >= 0, n <= z3.Length(s)), 'stream length within the buffer', e.get('l', 0))
        return [(st, RecV(t, dict(data=z3.SubString(s, 0, n), pos=z3.IntVal(0), limit=n, has=F, ended=F)))]
    g.contracts[P + 'CodedInputStream::CodedInputStream'] = ctor_in
    def fld(g, st, obj): return [g.read(st, obj.f(x)) for x in ('data', 'pos', 'limit')]
    def skip(g, st, obj, args, e):
        d, p, l = fld(g, st, obj); n = g.val(st, args[0]); ok = z3.And(n >= 0, p + n <= l)
        g.write(st, obj.f('pos'), z3.If(ok, p + n, z3.If(n < 0, p, l))); return [(st, ok)]
    g.contracts[P + 'CodedInputStream::Skip'] = skip
    def readv(g, st, obj, args, e):
        d, p, l = fld(g, st, obj); r = z3.String(g.uname('rest')); st.assume(r == region(d, p, l))
        st.assume(z3.Implies(VOK(r), z3.And(VLEN(r) >= 1, VLEN(r) <= 10, VLEN(r) <= z3.Length(r), VVAL(r) >= 0, VVAL(r) < 2 ** 32)))
        for n in g.varints: st.assume(z3.Implies(z3.PrefixOf(VAR(n), r), z3.And(VOK(r), VVAL(r) == n, VLEN(r) == z3.Length(VAR(n)))))
        st.trace.append(('varint', None, [r, p], 0))
        lv = g.deref(st, args[0], e); g.write(st, lv, z3.If(VOK(r), VVAL(r), g.fresh_const('junk', I)))
        g.write(st, obj.f('pos'), z3.If(VOK(r), p + VLEN(r), p)); return [(st, VOK(r))]
    g.contracts[P + 'CodedInputStream::ReadVarint32'] = readv
    def push(g, st, obj, args, e):
        d, p, l = fld(g, st, obj); n = g.val(st, args[0]); g.write(st, obj.f('limit'), z3.If(z3.And(n >= 0, p + n <= l), p + n, l)); g.write(st, obj.f('has'), T); return [(st, l)]
    g.contracts[P + 'CodedInputStream::PushLimit'] = push
    def pop(g, st, obj, args, e): g.write(st, obj.f('limit'), g.val(st, args[0])); g.write(st, obj.f('ended'), F); return [(st, UnitV())]
    g.contracts[P + 'CodedInputStream::PopLimit'] = pop
    g.contracts[P + 'CodedInputStream::CurrentPosition'] = lambda g, st, obj, args, e: [(st, g.read(st, obj.f('pos')))]
    g.contracts[P + 'CodedInputStream::BytesUntilLimit'] = lambda g, st, obj, args, e: [(st, z3.If(g.read(st, obj.f('has')), g.read(st, obj.f('limit')) - g.read(st, obj.f('pos')), -1))]
    g.contracts[P + 'CodedInputStream::ConsumedEntireMessage'] = lambda g, st, obj, args, e: [(st, g.read(st, obj.f('ended')))]
    def readstr(g, st, obj, args, e):
        d, p, l = fld(g, st, obj); n = g.val(st, args[1]); ok = z3.And(n >= 0, p + n <= l); lv = g.deref(st, args[0], e)
        g.write(st, lv, z3.If(ok, z3.SubString(d, p, n), g.fresh_const('junk', SS))); g.write(st, obj.f('pos'), z3.If(ok, p + n, g.fresh_const('pos', I))); return [(st, ok)]
    g.contracts[P + 'CodedInputStream::ReadString'] = readstr
    def parse(g, st, obj, args, e):
        v = g.read(st, obj); lv = g.deref(st, args[0], e); d, p, l = fld(g, st, lv); s = g.sort_of(v.ty)
        r = z3.String(g.uname('region')); st.assume(r == region(d, p, l))
        par = z3.Function('parse.' + s.name(), SS, s); ok = z3.Function('parses.' + s.name(), SS, BS)
        acc = z3.Function('stream.ok', SS, BS)(r); used = z3.Function('stream.used', SS, I)(r); end = z3.Function('stream.ended', SS, BS)(r)
        st.assume(z3.And(used >= 0, used <= z3.Length(r), (z3.And(acc, end)) == ok(r), z3.Implies(end, used == z3.Length(r))))
        st.trace.append(('region', None, [r, ok(r)], 0))
        g.write(st, obj, g.unpack(st, par(r), v.ty)); g.write(st, lv.f('pos'), p + used); g.write(st, lv.f('ended'), end); return [(st, acc)]
    g.contracts['google::protobuf::MessageLite::ParseFromCodedStream'] = parse
    # ---- output
    g.contracts[P + 'StringOutputStream::StringOutputStream'] = lambda g, st, t, args, e: [(st, RecV(t, dict(to=g.val(st, args[0]))))]
    def ctor_out(g, st, t, args, e):
        p = g.val(st, args[0]); o = g.read(st, p.lv); return [(st, RecV(t, dict(to=o.fields['to'])))]
    g.contracts[P + 'CodedOutputStream::CodedOutputStream'] = ctor_out
    def writev(g, st, obj, args, e):
        n = g.val(st, args[0]); to = g.read(st, obj).fields['to']; s = g.read(st, to.lv); v = VAR(n); g.varints.append(n); st.trace.append(('wrote-varint', None, [n], 0))
        st.assume(z3.And(z3.Length(v) >= 1, z3.Length(v) <= 5)); g.write(st, to.lv, z3.Concat(s, v)); return [(st, UnitV())]
    g.contracts[P + 'CodedOutputStream::WriteVarint32'] = writev

GZ = z3.Function('gzip', SS, SS); GOK = z3.Function('gzip.valid', SS, BS); GCONT = z3.Function('gzip.content', SS, SS)
def install_gzip(g):
    """gzip streams: ghost state 'given' (bytes handed over and not taken back), 'got' (bytes delivered), 'ended' (the last read that made progress met the end of a stream)"""
    P = 'google::protobuf::io::'
    g.assumptions.add('GzipOutputStream compresses the bytes written into the buffers it hands out, less those given back; GzipInputStream delivers the content in order, and the input was valid exactly if no error message is set and its last progress met a stream end')
    def ctor_out(g, st, t, args, e):
        p = g.val(st, args[0]); o = g.read(st, p.lv); opt = g.val(st, args[1]) if len(args) > 1 else None; buf = g.new_root(st, 'gz.buf', z3.StringVal(''))
        return [(st, RecV(t, dict(to=o.fields['to'], fed=z3.StringVal(''), cur=z3.IntVal(0), buf=('fixed', buf), format=opt.fields['format'] if opt is not None else z3.IntVal(1))))]
    g.contracts[P + 'GzipOutputStream::Options::Options'] = lambda g, st, t, args, e: [(st, g.val(st, args[0]))] if args else [(st, RecV(t, dict(format=z3.IntVal(1), buffer_size=z3.IntVal(65536), compression_level=z3.IntVal(-1), compression_strategy=z3.IntVal(0))))]
    g.contracts[P + 'GzipOutputStream::GzipOutputStream'] = ctor_out
    def given(st, obj): r = g.read(st, obj); b = r.fields['buf'][1]; return z3.Concat(r.fields['fed'], z3.SubString(g.read(st, b), 0, r.fields['cur']))
    g.gz_given = given
    def nxt(g, st, obj, args, e):
        r = g.read(st, obj); b = r.fields['buf'][1]; ok = z3.Bool(g.uname('next.ok')); old = given(st, obj)
        n = g.fresh_const('space', I); st.assume(z3.And(n >= 0, n < 2 ** 31)); x = g.fresh_const('buf', SS); st.assume(z3.Length(x) == n)
        g.write(st, obj.f('fed'), z3.If(ok, old, r.fields['fed'])); g.write(st, obj.f('cur'), z3.If(ok, n, r.fields['cur'])); g.write(st, b, z3.If(ok, x, g.read(st, b)))
        g.write(st, g.deref(st, args[0], e), PtrV(None, F, b, z3.IntVal(0))); g.write(st, g.deref(st, args[1], e), z3.If(ok, n, g.fresh_const('junk', I)))
        return [(st, ok)]
    g.contracts[P + 'GzipOutputStream::Next'] = nxt
    def backup(g, st, obj, args, e):
        k = g.val(st, args[0]); c = g.read(st, obj.f('cur')); g.safe(st, 'index', z3.And(k >= 0, k <= c), 'no more is given back than was handed out', e.get('l', 0)); g.write(st, obj.f('cur'), c - k); return [(st, UnitV())]
    g.contracts[P + 'GzipOutputStream::BackUp'] = backup
    def close(g, st, obj, args, e):
        a = st.copy(); r = g.read(st, obj); x = given(st, obj); to = r.fields['to']; other = z3.Function('not.gzip', SS, SS)
        g.write(st, to.lv, z3.Concat(g.read(st, to.lv), z3.If(r.fields['format'] == 1, GZ(x), other(x)))); st.trace.append(('closed', None, [x], 0)); return [(a, F), (st, T)]
    g.contracts[P + 'GzipOutputStream::Close'] = close
    for c in ('GzipOutputStream', 'GzipInputStream'):
        def msg(g, st, obj, args, e, c=c):
            r = g.read(st, obj); nul = r.fields.get('nomsg', None); nul = nul if nul is not None else z3.Bool(g.uname('nomsg'))
            return [(st, PtrV(None, nul, g.new_root(st, 'msg', z3.String(g.uname('msg'))), z3.IntVal(0)))]
        g.contracts[P + c + '::ZlibErrorMessage'] = msg
    def copy(g, st, obj, args, e):
        s = g.val(st, obj); p = g.val(st, args[0]); n = g.val(st, args[1]); pos = g.val(st, args[2]) if len(args) > 2 else z3.IntVal(0); L = z3.Length(s)
        g.safe(st, 'index', z3.And(pos >= 0, pos <= L), 'copy starts inside the string', e.get('l', 0))
        k = z3.If(n <= L - pos, n, L - pos); d = g.read(st, p.lv)
        g.safe(st, 'index', z3.And(p.off >= 0, p.off + k <= z3.Length(d)), 'copy stays inside the buffer', e.get('l', 0))
        g.write(st, p.lv, z3.Concat(z3.SubString(d, 0, p.off), z3.SubString(s, pos, k), z3.SubString(d, p.off + k, z3.Length(d) - p.off - k))); return [(st, k)]
    for c in ('std::basic_string_view::copy', 'absl::string_view::copy', 'std::string_view::copy'): g.contracts[c] = copy
    # ---- input
    def ctor_arr(g, st, t, args, e):
        p = g.val(st, args[0]); n = g.val(st, args[1]); s = p if z3.is_expr(p) else g.read(st, p.lv); return [(st, RecV(t, dict(data=z3.SubString(s, 0, n))))]
    g.contracts[P + 'ArrayInputStream::ArrayInputStream'] = ctor_arr
    def ctor_in(g, st, t, args, e):
        z = g.read(st, g.val(st, args[0]).lv).fields['data']; buf = g.new_root(st, 'gz.in', z3.StringVal(''))
        return [(st, RecV(t, dict(z=z, got=z3.StringVal(''), ended=z3.Length(z) == 0, code=z3.IntVal(0), nomsg=z3.Bool(g.uname('nomsg')), buf=('fixed', buf))))]
    g.contracts[P + 'GzipInputStream::GzipInputStream'] = ctor_in
    def inext(g, st, obj, args, e):
        r = g.read(st, obj); b = r.fields['buf'][1]; z, got, ended, nomsg = [r.fields[x] for x in ('z', 'got', 'ended', 'nomsg')]
        ok = z3.Bool(g.uname('next.ok')); c = g.fresh_const('zcode', I)
        st.assume(z3.Implies(z3.Not(ok), z3.And(GOK(z) == z3.And(nomsg, ended), z3.Implies(GOK(z), got == GCONT(z)))))
        n = g.fresh_const('chunk', I); x = g.fresh_const('inbuf', SS); st.assume(z3.And(n >= 0, n < 2 ** 31, z3.Length(x) == n))
        g.write(st, b, x); g.write(st, obj.f('got'), z3.If(ok, z3.Concat(got, x), got)); g.write(st, obj.f('code'), c); g.write(st, obj.f('ended'), z3.If(z3.Or(z3.Not(ok), c == -5), ended, c == 1))
        g.write(st, g.deref(st, args[0], e), PtrV(None, F, b, z3.IntVal(0))); g.write(st, g.deref(st, args[1], e), n)
        return [(st, ok)]
    g.contracts[P + 'GzipInputStream::Next'] = inext
    g.contracts[P + 'GzipInputStream::ZlibErrorCode'] = lambda g, st, obj, args, e: [(st, g.read(st, obj.f('code')))]
