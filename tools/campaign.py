"""Development aid: try many small edits of the sources against the checks, each in a private mount namespace.
   tools/campaign.py bugs <ID> <count> <file>…      random breaking edits; lists those the check misses
   tools/campaign.py same <ID> <count> <file>…      random behaviour-preserving edits; lists those the check objects to
Nothing outside the scratch copies under /root/scratch is written."""
import sys, os, re, random, subprocess, json, shutil, hashlib, threading, queue
SC = '/root/scratch'; W = int(os.environ.get('WORKERS', '2'))
OPS = [(r'(?<![<>=\-!])<(?![<=>])(?= )', ' <='), (r' <= ', ' < '), (r' >= ', ' > '), (r' > (?=[\w(])', ' >= '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ' + 2'), (r' - 1\b', ''), (r' \+ 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'if \((?=[^!])', 'if (!'), (r'!(?=[\w(])', ''), (r'\+\+(\w+)', r'--\1'), (r' += ', ' = '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' \| ', ' & '), (r' & ', ' | '), (r' << ', ' >> '), (r' >> ', ' << '), (r'^(\s+)(?!return|auto|const|int|std::|absl::|}|for|if|else|while|case|default|public|private|using|size_t|uint|bool|FCP_ASSIGN|static|double)([\w.:\->*]+[^;{}]*;)$', r'\1;'), (r'^(\s+)break;', r'\1;'), (r'^(\s+)continue;', r'\1;'), (r'std::min', 'std::max'), (r'std::max', 'std::min'), (r'emplace_back\((\w+)\)', r'push_back({})'), (r'\b(8|16|32|64)\b', lambda m: str(int(m.group(1)) - 1)), (r'"([^"]{2,})"', r'"\1x"'), (r'^(\s+)FCP_RETURN_IF_ERROR\(.*\);$', r'\1;')]
SAME = [(r'\+\+(\w+)\)', r'\1 += 1)'), (r'\b(\w+) == (\w+)\)', r'\2 == \1)'), (r'^(\s+)if \((.*)\) \{$', r'\1if (bool cond_ = static_cast<bool>(\2)) {'), (r'^(\s+)return ([\w.:()>\- ,+*]+);$', r'\1{ auto result_ = \2; return result_; }'), (r' < (\w+); \+\+(\w+)\)', r' < \1; \2 += 1)'), (r'^(\s+)if \((.*)\) \{$', r'\1if (!(!(\2))) {'), (r'(\w+)\.empty\(\)', r'(\1.size() == 0)'), (r'^(\s+)(\w+)\.push_back\(', r'\1\2.emplace_back('), (r'for \(const auto& (\w+) : (\w+)\) \{', r'for (auto it_ = \2.begin(); it_ != \2.end(); ++it_) { const auto& \1 = *it_;'), (r'for \((?:int|size_t|auto) (\w+) = (\w+); (\1 < [^;]+); (?:\+\+\1|\1\+\+)\) \{', r'auto \1 = decltype(\1 + 0)(\2); while (\3) { struct Inc_ {} ;'), (r'(\w+) \+ (\w+)(?=[;)])', r'\2 + \1'), (r' && ', ' and '), (r'if \(!(\w+)\.ok\(\)\) ', r'if (\1.ok() == false) '), (r'^(\s+)(\w+ \w+) = (.*);$', r'\1const auto init_ = \3; \2 = init_;')]
def lines_of(s):
    out = []; com = False
    for i, l in enumerate(s.split('\n')):
        t = l.strip()
        if com:
            if '*/' in t: com = False
            continue
        if t.startswith('/*'): com = '*/' not in t; continue
        if not t or t.startswith(('//', '#', 'using ', 'namespace', 'static_assert', 'template', 'FCP_LOG', '<<', 'explicit', 'class ', 'struct ')): continue
        out.append(i)
    return out
def candidates(files, ops):
    c = []
    for f in files:
        s = open('/repo/' + f).read(); L = s.split('\n')
        for i in lines_of(s):
            code = L[i].split('//')[0]
            for k, (a, b) in enumerate(ops):
                for m in re.finditer(a, code):
                    n = code[:m.start()] + re.sub(a, b, code[m.start():], count=1) if not a.startswith('^') else re.sub(a, b, code)
                    if n != code: c.append((f, i, L[i], n))
    return list(dict.fromkeys(c))
def worker(n, q, res, pid, ids):
    d = '%s/w%d' % (SC, n); os.makedirs(d, exist_ok=True)
    for x in ('repo', 'verif'): subprocess.run(['rsync', '-a', '--delete', '--exclude', '_build', '--exclude', 'replays', '/%s/' % x, '%s/%s/' % (d, x)] if shutil.which('rsync') else ['bash', '-c', 'mkdir -p %s/%s && cp -a /%s/. %s/%s/' % (d, x, x, d, x)], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f, i, old, new = m; p = d + '/repo/' + f; s = open('/repo/' + f).read(); L = s.split('\n')
        L[i] = new; open(p, 'w').write('\n'.join(L))
        sc = 'mount --make-rprivate / && mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 600 python3-vt run.py %s' % (d, d, pid)
        r = subprocess.run(['unshare', '-m', 'bash', '-c', sc], capture_output=True, text=True); o = r.stdout + r.stderr
        k = 'nobuild' if 'not built' in o else 'silent' if r.returncode == 0 else 'error%d' % r.returncode if r.returncode != 1 else 'obligation' if 'no-failing-input-found' in o else 'input'
        res.append((k, m, o)); print('%-10s %s:%d  %s  ==>  %s' % (k, f, i + 1, old.strip()[:100], new.strip()[:130]), flush=True)
        if k in ('silent', 'error2') or (ids == 'same' and k != 'silent'): print('           ' + (o.strip().split('\n') or [''])[-1][:300], flush=True)
        open(p, 'w').write(s)
def main():
    kind, pid, count = sys.argv[1], sys.argv[2], int(sys.argv[3]); files = sys.argv[4:]; rnd = random.Random(int(os.environ.get('SEED', '1')))
    c = candidates(files, OPS if kind == 'bugs' else SAME); rnd.shuffle(c); q = queue.Queue(); done = []
    def compiles(m):
        f, i, old, new = m; s = open('/repo/' + f).read(); L = s.split('\n'); L[i] = new; t = '%s/syn' % SC; shutil.rmtree(t, ignore_errors=True); p = t + '/' + f; os.makedirs(os.path.dirname(p)); open(p, 'w').write('\n'.join(L))
        return subprocess.run(['clang++', '-x', 'c++', '-std=c++17', '-include', 'optional', '-w', '-I/verif/lib/stubs', '-I' + t, '-I/verif/build/gen', '-I/repo', '-I/usr/include/android', '-fsyntax-only', p], capture_output=True).returncode == 0
    n = 0
    for m in c:
        if n >= count: break
        if m[0].endswith('.py') or compiles(m): q.put(m); n += 1
    print(pid, len(c), 'candidates,', n, 'tried', flush=True); res = done; ts = [threading.Thread(target=worker, args=(int(os.environ.get('BASE', '0')) + k, q, res, pid, kind)) for k in range(W)]; [t.start() for t in ts]; [t.join() for t in ts]
    from collections import Counter; print(pid, dict(Counter(k for k, _, _ in res)), flush=True)
main()
