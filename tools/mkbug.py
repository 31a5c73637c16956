"""mkbug.py: create seeded bugs from a python description file.
Each entry: B(id, property, needs, breaks, [(file, old, new)...], demo_cpp, link=False)"""
import sys, os, json, subprocess, tempfile, shutil
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -O0 -g0 %s -I_build/arabica/include -Iinclude "$d/demo.cpp" %s -o "$t/demo" || exit 0
cd "$t" && timeout 60 ./demo
'''
def B(id, prop, needs, breaks, edits, demo, link=False, flags=''):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    import difflib
    files = {}
    for f, old, new in edits:
        s = files.get(f) or (open(os.path.join(R, f), newline='').read(),) * 2
        crlf = '\r\n' in s[0]
        if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        assert s[1].count(old) == 1, (id, f, s[1].count(old), old)
        files[f] = (s[0], s[1].replace(old, new))
    out = ''
    tmp = tempfile.mkdtemp()
    subprocess.run(['git', 'init', '-q'], cwd=tmp)
    for f, (a, b) in files.items():
        os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True); open(os.path.join(tmp, f), 'w', newline='').write(a)
    subprocess.run('git add -A; git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=tmp)
    for f, (a, b) in files.items(): open(os.path.join(tmp, f), 'w', newline='').write(b)
    out = subprocess.run(['git', 'diff', '--binary'], cwd=tmp, stdout=subprocess.PIPE).stdout
    shutil.rmtree(tmp)
    open(os.path.join(d, 'patch.diff'), 'wb').write(out)
    lib = '$(ls _build/arabica/libarabica.* _build/libarabica.* 2>/dev/null | head -n1) -lexpat -lboost_system -lpthread -Wl,-rpath,$PWD/_build/arabica' if link else ''
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (flags, lib))
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def load(p):
    exec(compile(open(p).read(), p, 'exec'), dict(B=B))
if __name__ == '__main__': 
    for p in sys.argv[1:]: load(p)
