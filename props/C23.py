"""C23: gzip."""
from vc.spec import *
from vc import pbio
TUS = ['fcp/base/compression.cc']
ASSUMPTIONS = ['protobuf gzip streams behave as stated in lib/vc/pbio.py; gzip decoding inverts gzip encoding', 'data below 2^31 bytes']
def streams(L, what):
    "records of the given stream class among the cells of the loop"
    return [LV(r) for r, v in L.st.cells.items() if isinstance(v, RecV) and v.ty.n.endswith(what)]
def compress(c):
    "ensures on success the result is the gzip form of exactly the input"
    g = c.engine(TUS, strings='seq'); g.safety = {'null', 'index', 'overflow'}; pbio.install(g); pbio.install_gzip(g)
    f = c.fn('fcp::CompressWithGzip'); st = start(g, f); d = z3.String('data'); st.assume(z3.Length(d) < 2 ** 31)
    def hint(L):
        out = []; ints = [l for l in L.mods if not l.path and z3.is_expr(g.read(L.st, l)) and z3.is_int(g.read(L.st, l))]
        for lv in streams(L, 'GzipOutputStream'):
            x = g.gz_given(L.st, lv)
            out.append(('given is the start of the data', x == z3.SubString(d, 0, z3.Length(x)))); out.append(('not more than the data', z3.Length(x) <= z3.Length(d)))
            for l in ints: out += [('given up to ' + l.root, z3.Length(x) == g.read(L.st, l)), ('left over ' + l.root, z3.Length(d) - z3.Length(x) == g.read(L.st, l))]
        return out
    g.loop_hints.append(hint)
    out = call(g, st, f, [d]); cover(g, [(s, r) for s, r in out if not (isinstance(r, StatusOrV) and cint(r.code) not in (0, None))]); no_abort(g, 'compressing never aborts')
    for s, r in out:
        s.assume(r.code == 0)
        if g.check(s.pc, 3000)[0] == z3.unsat: continue
        g.oblige(s, g.res(s, r.val, r.ety) == pbio.GZ(d), 'the result is the gzip form of the whole input')
def uncompress(c):
    "ensures success exactly for valid complete gzip data, with its whole content"
    g = c.engine(TUS, strings='seq'); g.safety = {'null', 'index'}; pbio.install(g); pbio.install_gzip(g)
    f = c.fn('fcp::UncompressWithGzip'); st = start(g, f); z = z3.String('compressed'); st.assume(z3.Length(z) < 2 ** 31)
    def hint(L):
        out = []
        for lv in streams(L, 'GzipInputStream'):
            r = g.read(L.st, lv)
            for l in L.mods:
                try: v = g.read(L.st, l)
                except Unsupported: continue
                if l.path or not z3.is_expr(v): continue
                if v.sort() == z3.StringSort(): out.append(('%s holds what was delivered' % l.root, v == g.read(L.st, lv.f('got'))))
                if z3.is_bool(v): out.append(('%s tells whether a stream ended' % l.root, v == g.read(L.st, lv.f('ended'))))
            out.append(('same input', g.read(L.st, lv.f('z')) == z))
        return out
    g.loop_hints.append(hint)
    out = call(g, st, f, [z]); cover(g, out); no_abort(g, 'decompressing never aborts')
    for s, r in out:
        g.oblige(s, (r.code == 0) == pbio.GOK(z), 'success exactly for complete valid data')
        s.assume(r.code == 0)
        if g.check(s.pc, 3000)[0] == z3.unsat: continue
        g.oblige(s, g.res(s, r.val, r.ety) == pbio.GCONT(z), 'the result is the whole content')
UNITS = [compress, uncompress]
HARNESS = dict(main='C23_harness.cc', srcs=['fcp/base/compression.cc'], protos=[], libs=['-lz'], secs=4)
