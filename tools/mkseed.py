"""Helper that writes one planted bug: seed(id, property, edits, needs, breaks, demo, srcs=…)."""
import json, os, subprocess, tempfile, shutil, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# cwd: the repository, after the build. Exit 0: behaviour as promised.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)" || exit 3
trap 'rm -rf "${T:?}"' EXIT
%(pre)sg++ -std=c++17 -O1 -include optional -w -fno-access-control %(flags)s-I"$D/stubs" -I"$T" -I"$R" -I"$R/_build/gen" -I/usr/include/android "$D/demo.cc" %(srcs)s \
  -o "$T/demo" %(libs)s-lprotobuf -Wl,--as-needed /usr/lib/x86_64-linux-gnu/libabsl_*.so -lpthread || exit 3
cd "$T" && timeout 200 ./demo
'''
PYDEMO = r'''#!/bin/bash
# cwd: the repository, after the build. Exit 0: behaviour as promised.
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/_build/py" timeout 200 /opt/fcp/pyvenv/bin/python "$D/demo.py"
'''
CRYPTO = '/usr/lib/x86_64-linux-gnu/android/libcrypto.so -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android '
def seed(id, prop, edits, needs, breaks, demo, srcs=(), libs='', protos=(), stubs=True, flags='', py=False, repo='/repo', tracing=()):
    d = os.path.join(V, 'seeded', id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    a = tempfile.mkdtemp(); 
    try:
        subprocess.run(['git', '-C', repo, 'worktree', 'add', '-q', '--detach', a + '/w', 'HEAD'], check=True)
        for f, old, new in edits:
            p = os.path.join(a, 'w', f); s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', a + '/w', 'diff'], capture_output=True, text=True, check=True).stdout
    finally:
        subprocess.run(['git', '-C', repo, 'worktree', 'remove', '--force', a + '/w']); shutil.rmtree(a)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    if py: open(d + '/demo.py', 'w').write(demo); sh = PYDEMO
    else:
        open(d + '/demo.cc', 'w').write(demo)
        pre = ''
        if protos: pre = 'protoc -I"$R" -I/opt/fcp/pyvenv/lib/python3.12/site-packages -I/usr/include --cpp_out="$T" %s || exit 3\n' % ' '.join(protos)
        for f in tracing: pass
        s = ' '.join('"$R/%s"' % x for x in srcs) + ' ' + ' '.join('"$T/%s"' % x.replace('.proto', '.pb.cc') for x in protos)
        sh = DEMO % dict(pre=pre, srcs=s, libs=libs, flags=flags + ' ' if flags else '')
        if stubs: shutil.copytree(V + '/lib/stubs', d + '/stubs', ignore=shutil.ignore_patterns('proto_stubs'))
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
