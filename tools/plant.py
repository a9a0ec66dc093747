"""development aid: turn (edit, demo) into seeded/<id>/ and confirm it in a scratch copy of /repo.
usage: plant.py SPEC.py   with  BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, subprocess, sys, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = '-g -std=c++17 -Wno-enum-constexpr-conversion -m64 -fno-rtti -fno-exceptions -DDEBUG -fsanitize=undefined,address -fno-sanitize-recover=all'.split()
DEMO = '''#!/bin/bash
# cwd: the repository.  exit 0: behaves as stated; nonzero: the property is broken
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
clang++-18 %s -I lib/h "$D/demo.cpp" lib/os.cpp lib/os_posix.cpp lib/mutex_std.cpp lib/to_text.cpp -o "$T/demo" -lpthread > "$T/log" 2>&1 || { cat "$T/log"; exit 3; }
timeout 60 "$T/demo" > "$T/out" 2>&1 || { tail -5 "$T/out"; exit 1; }
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tests(repo):
    """build and run the gtest binary of a copy"""
    b = os.path.join(repo, '_t')
    os.makedirs(b, exist_ok=True)
    src = [os.path.join(repo, 'lib', f) for f in ('os.cpp', 'os_posix.cpp', 'mutex_std.cpp', 'to_text.cpp')]
    src += [os.path.join(repo, 'test', f) for f in sorted(os.listdir(os.path.join(repo, 'test')))]
    fl = '-DDEBUG -I/usr/src/googletest/googletest/include -g -std=c++17 -Wno-enum-constexpr-conversion -m64 -fno-rtti -fno-exceptions'.split()
    from concurrent.futures import ThreadPoolExecutor

    def one(s):
        o = os.path.join(b, os.path.basename(s) + '.o')
        return o, sh('clang++-18', *fl, '-I' + os.path.join(repo, 'lib/h'), '-c', s, '-o', o)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, src))
    for o, r in rs:
        if r.returncode:
            return False, r.stderr[-1500:]
    r = sh('clang++-18', *[o for o, _ in rs], '/repo/_build/libgoogletest.a', '-lpthread', '-o', os.path.join(b, 't'))
    if r.returncode:
        return False, r.stderr[-1500:]
    r = sh(os.path.join(b, 't'), '--gtest_filter=-clock.*', cwd=b)
    return r.returncode == 0, r.stdout[-1500:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for B in ns['BUGS']:
        if only and B['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', B['id'])
        w = tempfile.mkdtemp(prefix='plant')
        repo = os.path.join(w, 'repo')
        sh('git', 'clone', '-q', '/repo', repo)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'demo.cpp'), 'w') as f:
            f.write(B['demo'])
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write(B.get('demo_sh') or DEMO % ' '.join(FLAGS))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        msg = []
        r = sh('bash', os.path.join(d, 'demo.sh'), cwd=repo)
        if r.returncode:
            msg.append('DEMO FAILS ON CLEAN TREE rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-1500:]))
        for f, old, new in B['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                msg.append('EDIT matches %d times: %r' % (s.count(old), old))
            s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = sh('git', 'diff', cwd=repo).stdout
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump(dict(property=B['property'], needs=B['needs'], what_it_breaks=B['breaks']), f, indent=1)
            f.write('\n')
        if not msg:
            r = sh('bash', os.path.join(d, 'demo.sh'), cwd=repo)
            if r.returncode == 0:
                msg.append('DEMO PASSES WITH THE BUG')
            elif r.returncode == 3:
                msg.append('DEMO DOES NOT COMPILE ' + r.stdout[-800:])
            ok, out = tests(repo)
            if not ok:
                msg.append('TESTS FAIL ' + out[-1200:])
        r = sh(sys.executable, '-m', 'vf', 'check', B['property'], cwd=ROOT, env=dict(os.environ, VF_REPO=repo, VF_EVIDENCE=w))
        lines = r.stdout.strip().splitlines()
        print('%s %s: %s | check rc=%d %s' % (B['id'], B['property'], '; '.join(msg) or 'confirmed', r.returncode,
              next((l for l in lines if '[' in l), lines[-1] if lines else r.stderr[-300:])[:260]))
        if msg and not B.get('keep'):
            shutil.rmtree(d)
        shutil.rmtree(w)


main()
