"""C07: the client's unmasking round."""
from vc.spec import *
TUS = ['fcp/secagg/client/secagg_client_r3_unmasking_state.cc', 'fcp/secagg/client/secagg_client_alive_base_state.cc', 'fcp/secagg/client/secagg_client_state.cc', 'fcp/secagg/client/secagg_client_aborted_state.cc', 'fcp/secagg/client/secagg_client_completed_state.cc']
NS = 'fcp::secagg::'; CL = NS + 'SecAggClientR3UnmaskingState'; I = z3.IntSort()
ASSUMPTIONS = ['the caller of the constructor passes lists with one entry per neighbour and the number of neighbours alive in them (shown for the preceding round in C09)']
def base(c, tus=None):
    g = c.engine(tus or TUS); g.safety = {'index', 'null'}; g.feas_qf = True; g.generic = lambda n: '.len' not in n and (n[:6] != '&state' or '+ k' not in n) and 'keeps' not in n and '- k' not in n and '<= start' not in n and '>= start' not in n
    def send(g, s, obj, a, e):
        p = g.val(s, a[0]); s.ghost['sent'] = s.ghost.get('sent', ()) + (g.read(s, p.lv),); return [(s, UnitV())]
    g.contracts[NS + 'SendToServerInterface::Send'] = send
    for n in ('Transition', 'Started', 'Stopped', 'set_execution_session_id'): g.contracts[NS + 'StateTransitionListenerInterface::' + n] = lambda g, s, obj, a, e: [(s, UnitV())]
    def sig(g, s, obj, a, e):
        b = g.fresh_const('signalled', z3.BoolSort()); s.assume(z3.Implies(b, z3.Bool('abort ever signalled'))); return [(s, b)]
    g.contracts[NS + 'AsyncAbort::Signalled'] = sig; g.contracts[NS + 'AsyncAbort::Message'] = lambda g, s, obj, a, e: [(s, g.fresh_const('abortmsg', g.str_sort()))]
    return g
def unmask(c):
    """requires the lists to have one entry per neighbour, this client among them and alive; ensures a response is sent only if every named client is another, known, so far
    live client named once and enough clients survive, and then always; its entries are the self share of every survivor, the pairwise share of every client named dead and
    nothing for clients dead before; otherwise a single abort message or nothing is sent"""
    g = base(c); st = start(g); ks = [f for f in c.fns(CL + '::SecAggClientR3UnmaskingState') if len(f.ps) == 10]
    if len(ks) != 1: raise Unsupported('constructor')
    k = ks[0]; st.fn = k; args = params(g, st, k); o = g.new_root(st, 'state', RecV(rec_ty(CL), {})); me, alive, mn, n = args[:4]
    for a in args[4:9]: st.assume(a.has)
    lists = [g.optval(st, a) for a in args[4:7]]
    states, pair, self_ = lists; st.assume(z3.And(n >= 1, n < 2 ** 31, me >= 0, me < n, alive >= 0, alive <= n, mn >= 0)); [st.assume(l.len == n) for l in lists]
    st.assume(states.arr[me] == 0); pre = states.arr
    j_ = z3.Int('j!q'); st.assume(z3.ForAll([j_], z3.And(pre[j_] >= 0, pre[j_] <= 3), patterns=[pre[j_]])); st.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n), pre[j_] <= 2), patterns=[pre[j_]]))
    CNT = z3.Function('live_clients', pre.sort(), I); a_ = z3.Const('a!q', pre.sort()); v_ = z3.Int('v!q')       # how many of the n entries are 'alive'
    st.assume(alive == CNT(pre)); st.assume(z3.ForAll([a_, j_, v_], z3.Implies(z3.And(j_ >= 0, j_ < n), CNT(z3.Store(a_, j_, v_)) == CNT(a_) - z3.If(a_[j_] == 0, 1, 0) + z3.If(v_ == 0, 1, 0)), patterns=[CNT(z3.Store(a_, j_, v_))]))
    st.assume(z3.ForAll([a_], CNT(a_) >= 0, patterns=[CNT(a_)])); st.assume(z3.ForAll([a_, j_], z3.Implies(z3.And(j_ >= 0, j_ < n, a_[j_] == 0), CNT(a_) >= 1), patterns=[z3.MultiPattern(CNT(a_), a_[j_])])); g.assumptions.add('the number of entries equal to a value changes with one entry as counting says')
    made = call(g, st, k, args, this=o); cover(g, made, 'the state can be made'); no_abort(g, 'construction never aborts')
    f = c.fn(CL + '::HandleMessage')
    sh = g.rec_fields(pair.ety)
    if len(sh) != 1: raise Unsupported('share')
    data = lambda s, v, i: g.rget(s, g.unpack(s, v.arr[i], v.ety), sh[0][0], sh[0][1])
    for s, _ in made:
        msg = g.new_root(s, 'msg', g.fresh(s, f.ps[0][2], 'msg', exact_name=True)); m0 = g.read(s, msg)
        has_abort, has_req = present(g, s, msg, 'abort'), present(g, s, msg, 'unmasking_request'); ids = g.read(s, msg.f('unmasking_request').f('dead_3_client_ids'))
        K = ids.len; ida = ids.arr; W = z3.Function('W', I, I); s.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < K), z3.And(ida[j_] >= 0, ida[j_] < 2 ** 32)), patterns=[ida[j_]])); s.assume(K < 2 ** 31)
        # W(i): the first position naming client i
        s.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < K), z3.And(W(ida[j_] - 1) >= 0, W(ida[j_] - 1) <= j_, ida[W(ida[j_] - 1)] == ida[j_])), patterns=[ida[j_]]))
        named = lambda i, upto: z3.And(W(i) >= 0, W(i) < upto, ida[W(i)] == i + 1)
        good = lambda q: z3.And(ida[q] >= 1, ida[q] <= n, ida[q] - 1 != me, pre[ida[q] - 1] == 0, W(ida[q] - 1) == q)
        def hint(L):
            out = []
            for lv in L.mods:
                v = g.read(L.st, lv)
                if isinstance(v, VecV) and v.arr.sort() == pre.sort() and v.ety.k == 'enum':
                    out += [('clients named so far are dead, the others as before', z3.And(v.len == n, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n), v.arr[j_] == z3.If(named(j_, L.k), 3, pre[j_])), **pat(v.arr, j_)))),
                            ('clients named so far are known, live, not this one and named once', z3.And(L.k <= K, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), good(j_)), patterns=[ida[j_]])))]
                elif z3.is_expr(v) and z3.is_int(v) and lv.root == o.root:
                    n_ = L.mods.index(lv); ls = [x.arr for x in (g.read(L.st, l2) for l2 in L.mods) if isinstance(x, VecV) and x.ety.k == 'enum']
                    out.append(('#%d counts the survivors and goes down with every client named' % n_, z3.And([v == CNT(x) for x in ls] + [v == alive - L.k])))
                elif isinstance(v, VecV):
                    ent = lambda i: entry(g, L.st, v, i)
                    noi, prf, cs = ent(j_)
                    out.append(('entries so far', z3.And(v.len == L.k, z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L.k), expect(L.st, j_, noi, prf, cs)), **pat(v.arr, j_)))))
            return out
        def expect(s2, i, noi, prf, cs):
            dead = named(i, K); a = pre[i] == 0; ps, ws = data(s2, self_, i), data(s2, pair, i)
            return z3.If(z3.And(a, Not(dead)), z3.And(cs == 2, prf == ps), z3.If(z3.And(a, dead), z3.And(cs == 1, noi == ws), cs == 0))
        g.loop_hints[:] = [hint]; out = call(g, s, f, [msg], this=o); cover(g, out); no_abort(g, 'never aborts the process')
        okreq = z3.And(has_req, Not(has_abort)); q = z3.Int('q')
        for y, r in out:
            sent = y.ghost.get('sent', ()); g.oblige(y, z3.BoolVal(len(sent) <= 1), 'at most one message is sent')
            for m in sent:
                m = g.new_root(y, 'sent', m); isr, isa = present(g, y, m, 'unmasking_response'), present(g, y, m, 'abort')
                g.oblige(y, z3.Xor(isr, isa), 'the message is a response or an abort message')
                z = y.copy(); z.assume(isr)
                if not g.feasible(z): continue
                z1 = z.copy(); z1.assume(z3.And(q >= 0, q < K))
                g.oblige(z, okreq, 'shares are sent only for an unmasking request'); g.oblige(z1, z3.And(ida[q] >= 1, ida[q] <= n), 'an unknown client in the request prevents any share')
                g.oblige(z1, ida[q] - 1 != me, 'a request naming this client as dead prevents any share'); g.oblige(z1, pre[ida[q] - 1] == 0, 'a request naming a client already dead prevents any share')
                g.oblige(z1, W(ida[q] - 1) == q, 'a repeated client prevents any share'); g.oblige(z, alive - K >= mn, 'too few survivors prevent any share')
                v = g.read(z, m.f('unmasking_response').f('noise_or_prf_key_shares')); z2 = z.copy(); z2.assume(z3.And(q >= 0, q < n)); noi, prf, cs = entry(g, z2, v, q)
                g.oblige(z, v.len == n, 'one entry per neighbour'); dead = named(q, K); live = pre[q] == 0
                g.oblige(z2, z3.Implies(cs == 2, z3.And(live, Not(dead), prf == data(z2, self_, q))), 'a self-mask share only of a survivor, and the right one')
                g.oblige(z2, z3.Implies(cs == 1, z3.And(live, dead, noi == data(z2, pair, q))), 'a pairwise share only of a client named dead, and the right one')
                g.oblige(z2, z3.Implies(live, cs != 0), 'a share of every client whose shares were received')
            nosig = z3.Not(z3.Bool('abort ever signalled'))
            if len(sent) == 0: g.oblige(y, z3.Or(has_abort, Not(has_req)), 'an unmasking request is always answered')
            for m in sent:
                m = g.new_root(y, 'sent', m); z = y.copy(); z.assume(z3.And(present(g, y, m, 'abort'), nosig, okreq, alive - K >= mn)); z.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < K), good(j_)), patterns=[ida[j_]]));
                g.oblige(z, F, 'a proper request is not answered with an abort')
def pat(arr, j):
    return dict(patterns=[arr[j]]) if z3.is_const(arr) else {}
def present(g, s, lv, name):
    m = g.proto.message(g.read(s, lv).ty); d = g.proto.find(m, name)
    if d is None: raise Unsupported('message field ' + name)
    return g.proto.has(g, s, lv, m, d)
def entry(g, s, v, i):
    """the two shares of an entry and which of them is set (0 none, 1 pairwise, 2 self)"""
    r = g.new_root(s, 'entry', g.unpack(s, v.arr[i], v.ety)); return g.read(s, r.f('noise_sk_share')), g.read(s, r.f('prf_sk_share')), g.read(s, r.f('case_oneof_shares'))
UNITS = [unmask]
CLIENT_SRCS = ['fcp/secagg/client/' + n + '.cc' for n in ('secagg_client', 'secagg_client_state', 'secagg_client_aborted_state', 'secagg_client_alive_base_state', 'secagg_client_completed_state', 'secagg_client_r0_advertise_keys_input_not_set_state', 'secagg_client_r0_advertise_keys_input_set_state', 'secagg_client_r1_share_keys_base_state', 'secagg_client_r1_share_keys_input_not_set_state', 'secagg_client_r1_share_keys_input_set_state', 'secagg_client_r2_masked_input_coll_base_state', 'secagg_client_r2_masked_input_coll_input_not_set_state', 'secagg_client_r2_masked_input_coll_input_set_state', 'secagg_client_r2_masked_input_coll_waiting_for_input_state', 'secagg_client_r3_unmasking_state')] + ['fcp/secagg/shared/' + n + '.cc' for n in ('aes_ctr_prng', 'aes_ctr_prng_factory', 'aes_gcm_encryption', 'aes_key', 'crypto_rand_prng', 'ecdh_key_agreement', 'input_vector_specification', 'map_of_masks', 'secagg_vector', 'shamir_secret_sharing')]
def client_harness(n): return dict(main='client_harness.cc', srcs=CLIENT_SRCS, protos=['fcp/secagg/shared/secagg_messages.proto'], libs=CRYPTO, flags=['-DPROP=%d' % n], secs=6)
HARNESS = client_harness(7)
SERVER_SRCS = CLIENT_SRCS + ['fcp/secagg/server/' + n + '.cc' for n in ('secagg_server', 'secagg_server_state', 'secagg_server_aborted_state', 'secagg_server_completed_state', 'secagg_server_prng_running_state', 'secagg_server_r0_advertise_keys_state', 'secagg_server_r1_share_keys_state', 'secagg_server_r2_masked_input_coll_state', 'secagg_server_r3_unmasking_state', 'secagg_server_protocol_impl', 'secagg_scheduler', 'secret_sharing_harary_graph', 'graph_parameter_finder', 'distribution_utilities', 'secagg_trace_utility', 'ssl_bit_gen', 'aes/aes_secagg_server_protocol_impl')] + ['fcp/secagg/shared/compute_session_id.cc', 'fcp/base/simulated_clock.cc', 'fcp/base/scheduler.cc', 'fcp/base/clock.cc']
def server_harness(n): return dict(main='server_harness.cc', srcs=SERVER_SRCS, protos=['fcp/secagg/server/secagg_server_enums.proto', 'fcp/secagg/server/secagg_server_messages.proto', 'fcp/secagg/shared/secagg_messages.proto'], libs=CRYPTO, flags=['-DPROP=%d' % n], secs=7)
