"""Rewrites DESIGN.md from its fixed parts here and the contracts in props/ (python3-vt tools/design.py)."""
import json, os, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + '/lib', V + '/props', V + '/tools']
HEAD = open(V + '/tools/design_head.md').read(); TAIL = open(V + '/tools/design_tail.md').read()
NA = dict(l.strip().split(' ', 1) for l in open(V + '/tools/not_applicable.txt') if l.strip())
# id: (oracle of the concrete search, what is left to that search or bounded, why this reaches further than tests)
N = {
'C01': ('128-bit arithmetic', 'nothing', 'the proof covers all operands; tests try a handful'),
'C02': ('the secret itself; own big-integer Lagrange interpolation', 'Share, Reconstruct and the splitting into pieces as wholes are exercised by the search only (bounded); the functions they are built from are proved, and the mathematics that joins them is proved in lemmas/Shamir.lean', 'field arithmetic is proved for all pieces and points'),
'C03': ('an independent bit-by-bit packer', 'nothing for the decoder, coder and adding of vectors; whole-vector round trips also searched', 'all widths 1..62, all alignments and lengths at once'),
'C04': ('an own mask generator over the same keystream; sums of two holders', 'nothing', 'rejected draws and wrap-arounds at the modulus are ordinary cases of the proof'),
'C05': ('AES-CTR by OpenSSL over the whole stream', 'the block cipher itself is an uninterpreted keystream', 'refills at any position'),
'C06': ('brute force over small graphs and random large ones', 'nothing', 'all node counts, degrees and permutations'),
'C07': ('reference client that knows which peers are alive', 'nothing', 'all server messages, including hostile ones'),
'C08': ('reference client with real keys and decryption by the peers', 'nothing', 'all requests'),
'C09': ('reference sum of masks with real keys', 'nothing', 'all patterns of dead and alive peers'),
'C10': ('reference counts kept beside the server over random message histories', 'metrics listeners are assumed absent', 'one-step proofs from an arbitrary reachable state cover histories of any length'),
'C11': ('the plain sum of the inputs of a full protocol run with real keys', 'the parallel accumulation of masks runs under the search only', 'all drop-out patterns'),
'C12': ('128-bit arithmetic on seconds and nanoseconds', 'nothing', 'negative and sub-second values of any size'),
'C13': ('interval bounds computed in exact arithmetic', 'floating-point numbers are treated as reals, scaling a duration as rounding to a neighbouring tick; the search runs the real floating point', 'all windows and draws'),
'C14': ('an own parser of header blocks', 'nothing', 'all header lines; no test of the parser runs'),
'C15': ('tables of the published codes; own encoder and decoder', 'nothing', 'all codes and byte strings'),
'C16': ('the concatenated chunks', 'fetching several resources at once (real client code with a scripted client and cache) is searched only', 'all chunkings'),
'C17': ('an own encoder following the documented format', 'nothing', 'all byte strings, reads past the end included'),
'C18': ('the expected entry built beside the logger', 'calls are atomic steps (they hold the mutex)', 'one-step proofs from any state cover all histories'),
'C19': ('a direct search of the history', 'the concatenation of the per-task records of the runs of a history and the grouping of phases into tasks are searched only (bounded)', 'histories of any length'),
'C20': ('a reference that asks every policy of every task', 'the verdict of each policy enters the combination by the contract of the function that computes it; the reading of a custom plan is searched only (bounded)', 'all combinations of policies, tasks and histories'),
'C21': ('maps built beside the dictionary', 'nothing', 'all layouts of special ids and vocabulary sizes'),
'C22': ('128-bit arithmetic', 'nothing', 'all values of all pairs of the fixed-width types'),
'C23': ('zlib used directly', 'the protobuf gzip streams are assumed to keep their documented contract', 'all lengths and truncations'),
'C24': ('a list of deadlines kept beside the clock', 'nothing', 'one-step proofs from any state of the waiter queue'),
'C25': ('sets of drawn ids; byte comparison', 'interleavings by rely and guarantee: other threads only move the counter forward, and so does each draw, by one atomic step of its own', 'counter values after 2^32 draws and more'),
'C26': ('a counter of live values', 'the waiting itself is not modelled: the proof is about the values', 'all sequences of operations'),
'C27': ('the published list of codes', 'nothing', 'all codes and messages'),
'C28': ('recorders in place of the three recipients', 'nothing', 'all outcomes with all figures, not one value per call'),
'C29': ('a model of slots beside a real service on loopback', 'interleavings at lock granularity by rely and guarantee: between critical sections the tables are arbitrary', 'all request sequences'),
}
out = [HEAD]
seeds = {}
for d in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/%s/meta.json' % d)); seeds.setdefault(m['property'], []).append((d, m['needs']))
for l in open(V + '/properties.jsonl'):
    P = json.loads(l); pid = P['id']; p = V + '/props/%s.py' % pid; out.append('### %s %s\n' % (pid, P['title']))
    if pid in NA or not os.path.exists(p): out.append('Not applicable: %s\n' % NA.get(pid, 'contracts not written.')); continue
    s = importlib.util.spec_from_file_location('p', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); o, b, w = N.get(pid, ('', '', ''))
    ev = {}
    try: ev = json.load(open(V + '/evidence/%s.json' % pid))
    except Exception: pass
    c = ev.get('coverage', {})
    out.append('Code: %s.\n' % ', '.join('`%s`' % f for f in P['anchors']['files']))
    out.append('Contracts proved, each from an arbitrary state satisfying its precondition:\n')
    for u in m.UNITS: out.append('- *%s*: %s' % (u.__name__, ' '.join((u.__doc__ or '').split()) or '(see props/%s.py)' % pid))
    out.append('\nOracle of the concrete search: %s. Left to the search or assumed: %s. Reach: %s.' % (o, b, w))
    out.append('Assumptions: %s.' % '; '.join(getattr(m, 'ASSUMPTIONS', []) or ['those of the substrate only']))
    if c.get('obligations'): out.append('Cost: %d obligations on the present tree, %s functions under contract.' % (c['obligations'], len(c.get('functions_under_contract', []))))
    if seeds.get(pid): out.append('Planted bugs: ' + '; '.join('%s (needs %s)' % (a, n[:1].lower() + n[1:].rstrip('.')) for a, n in seeds[pid]) + '.')
    out.append('')
out.append(TAIL)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
