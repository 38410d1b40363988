"""C14: HTTP response header parsing."""
from vc.spec import *
TUS = [V + '/props/inst_curl_header.cc', 'fcp/client/http/curl/curl_header_parser.cc']
NS = 'verif_inst::'
ASSUMPTIONS = ['SMT string theory models std::string; absl string helpers (StartsWith, StrContains, StrSplit to a pair, MaxSplits) have their documented meaning',
               'StripAsciiWhitespace, EqualsIgnoreCase and SimpleAtoi are functions of the text given to them']
S = lambda x: z3.StringVal(x)
def parts(line):
    i = z3.IndexOf(line, S(':'), 0)
    name = z3.SubString(line, 0, i); rest = z3.SubString(line, i + 1, z3.Length(line) - i - 1)
    sp = z3.IndexOf(line, S(' '), 0); after = z3.SubString(line, sp + 1, z3.Length(line) - sp - 1); sp2 = z3.IndexOf(after, S(' '), 0)
    piece = z3.If(sp < 0, S(''), z3.If(sp2 < 0, after, z3.SubString(after, 0, sp2)))
    num = z3.If(z3.Length(piece) <= 3, piece, z3.SubString(piece, 0, 3))
    return name, rest, num
def step(c, fn, encoded):
    g = c.engine(TUS, proto=False, strings='seq'); g.safety = {'index', 'null'}
    f = c.fn(NS + fn); st = start(g, f); line = z3.String('line'); lv = g.new_root(st, 'line', line)
    p = g.fresh(st, f.ps[0][2], 'parser', exact_name=True)
    if not encoded:
        # any state in which the members written by UseCurlEncoding still have their initial values
        new, enc = c.fn(NS + 'New'), c.fn(NS + 'Encode'); (s1, v0), = call(g, st, new, []); x = g.new_root(s1, 'fresh', v0); init = {n: g.read(s1, x.f(n)) for n, _ in g.rec_fields(f.ps[0][2].deref())}
        s2 = s1.copy(); (s2, _), = call(g, s2, enc, [PtrV(enc.ps[0][2], F, x)])
        pl = g.new_root(s1, 'parser', p); st = s1; st.fn = f; n = 0
        for k, v in init.items():
            w = g.read(s2, x.f(k))
            if z3.is_expr(v) and not z3.simplify(v).eq(z3.simplify(w)): g.write(st, pl.f(k), v); n += 1
        if n == 0: raise Unsupported('UseCurlEncoding has no visible effect on the parser')
        p = g.read(st, pl)
    args = [p, lv]
    out = call(g, st, f, args); cover(g, out); no_abort(g, 'parsing a line never aborts')
    name, rest, num = parts(line)
    ss = z3.StringSort(); strip = z3.Function('absl.StripAsciiWhitespace', ss, ss); ok = z3.Function('atoi.ok', ss, z3.BoolSort()); val = z3.Function('atoi.32True', ss, z3.IntSort())
    ic = z3.Function('absl.EqualsIgnoreCase', ss, ss, z3.BoolSort())
    is_status = z3.And(z3.PrefixOf(S('HTTP/'), line), ok(num)); is_hdr = z3.And(z3.Not(is_status), z3.Contains(line, S(':')))
    is_end = z3.And(z3.Not(is_status), z3.Not(is_hdr), line == S('\r\n'))
    hop = z3.Or([ic(name, S(x)) for x in ('Content-Encoding', 'Content-Length', 'Transfer-Encoding')]) if encoded else F
    for s, r in out:
        b, a = [g.read(s, g.new_root(s, 'r', r).f(x)) for x in ('before', 'after')]
        rd = lambda v, n: g.rget(s, v, n, None)
        hb, ha = rd(b, 'headers'), rd(a, 'headers'); sb, sa = rd(b, 'status'), rd(a, 'status'); lb, la = rd(b, 'last'), rd(a, 'last')
        same = z3.And(ha.len == hb.len, z3.ForAll([z3.Int('i!')], z3.Implies(z3.And(z3.Int('i!') >= 0, z3.Int('i!') < hb.len), ha.arr[z3.Int('i!')] == hb.arr[z3.Int('i!')])))
        g.oblige(s, sa == z3.If(is_status, val(num), sb), 'the status is that of the last status line')
        g.oblige(s, z3.Implies(is_status, ha.len == 0), 'a status line starts a new response without headers')
        add = z3.And(is_hdr, z3.Not(hop))
        g.oblige(s, z3.Implies(z3.And(z3.Not(is_status), z3.Not(add)), same), 'other lines leave the headers alone')
        last = g.unpack(s, z3.Select(ha.arr, hb.len), ha.ety)
        kept = z3.ForAll([z3.Int('i!')], z3.Implies(z3.And(z3.Int('i!') >= 0, z3.Int('i!') < hb.len), ha.arr[z3.Int('i!')] == hb.arr[z3.Int('i!')]))
        g.oblige(s, z3.Implies(add, z3.And(ha.len == hb.len + 1, kept)), 'a header line adds one header and keeps the earlier ones')
        g.oblige(s, z3.Implies(add, g.rget(s, last, 'first', None) == name), 'the name is the text before the first colon')
        g.oblige(s, z3.Implies(add, g.rget(s, last, 'second', None) == strip(rest)), 'the value is everything after the first colon without surrounding white space')
        g.oblige(s, la == z3.Or(lb, z3.And(is_end, sb != 301)), 'the end is reported exactly after an empty line of a final response')
def fresh_parser(c):
    "a new parser has status -1, no headers and no end"
    g = c.engine(TUS, proto=False, strings='seq'); f = c.fn(NS + 'Fresh'); st = start(g, f); out = call(g, st, f, []); cover(g, out)
    for s, r in out: g.oblige(s, z3.And(g.rget(s, r, 'status', None) == -1, g.rget(s, r, 'headers', None).len == 0, z3.Not(g.rget(s, r, 'last', None))), 'a new parser has seen nothing')
def plain(c):
    "a parser not told to leave the encoding to curl, in any other respect: exact effect of any line"
    step(c, 'Parse', False)
def encoded(c):
    "any parser state, curl handles the encoding: exact effect of any line, hop-by-hop headers dropped"
    step(c, 'ParseEncoded', True)
UNITS = [fresh_parser, plain, encoded]
HARNESS = dict(main='C14_harness.cc', srcs=['fcp/client/http/curl/curl_header_parser.cc', 'fcp/client/http/http_client_util.cc'], protos=['google/rpc/status.proto', 'google/rpc/code.proto'], secs=4)
