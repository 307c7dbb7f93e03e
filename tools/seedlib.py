# Helper for planting bugs: makes a patch in a scratch copy, validates it and writes seeded/<id>.
import subprocess, json, os, shutil, sys
WT = '/tmp/x/wt'
SEED = '/verif/seeded'
def sh(c, **k):
    r = subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    return r.returncode, r.stdout + r.stderr
def fresh():
    sh('rm -rf /tmp/x/wt; cp -a /repo /tmp/x/wt; cd /tmp/x/wt && git checkout -q -- . ')
BASE = sh('git -C /repo rev-list --max-parents=0 HEAD')[1].split()[-1]
PRE = '''#!/bin/bash
# Run with the working directory being the repository, after the build.
R=$PWD
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W"
'''
def seed(id, prop, edits, demo, needs, breaks, run=True):
    """edits: list of (file, old, new); demo: bash text (after PRE)"""
    fresh()
    for f, a, b in edits:
        p = f'{WT}/{f}'
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    rc, o = sh(f'cd {WT} && gofmt -l cmd internal pkg')
    if o.strip(): print(id, 'gofmt', o)
    rc, diff = sh(f'git -C {WT} diff')
    # Changed lines have to be lines of the original repository.
    for f in {e[0] for e in edits}:
        rc, bl = sh(f'git -C /repo blame -s --abbrev=40 HEAD -- {f}')
        lines = bl.splitlines()
        rc, d = sh(f'git -C {WT} diff -U0 -- {f}')
        import re
        n = 0
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
            st, c = int(m[1]), int(m[2] or 1)
            for i in range(st, st + c):
                n += 1
                if not lines[i-1].lstrip('^').startswith(BASE[:39]):
                    print(id, 'NOT ORIGINAL LINE', f, i, lines[i-1][40:])
        if n == 0: print(id, 'WARNING only insertions in', f)
    rc, o = sh(f'. /opt/vp/env.sh; cd {WT} && go vet ./cmd/... ./internal/... ./pkg/... ; go build ./... && go build -o fbdl ./cmd/fbdl')
    if rc: print(id, 'BUILD', o); return False
    rc, o = sh(f'sed s#/repo#{WT}#g /opt/vp/test.sh > /tmp/x/test_wt.sh; bash /tmp/x/test_wt.sh /tmp/x/wt.json')
    j = json.load(open('/tmp/x/wt.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [t for t in b if t not in j['passed']]
    if miss: print(id, 'TESTS FAIL', miss[:10]); return False
    d = f'{SEED}/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(PRE + demo)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    rc0, o0 = sh(f'bash {d}/demo.sh', cwd='/repo')
    rc1, o1 = sh(f'bash {d}/demo.sh', cwd=WT)
    if rc0 != 0 or rc1 == 0:
        print(id, 'DEMO WRONG', rc0, o0[-800:], '|||', rc1, o1[-800:]); return False
    if run:
        rc, o = sh(f'VX_REPO={WT} bash /verif/run.sh {prop} quick')
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        print(id, 'CAUGHT' if rc == 1 and v else f'MISSED rc={rc}', '\n'.join(o.splitlines()[-3:])[:600] if not v else o.split('VIOLATION')[1][:300])
        return rc == 1
    return True
def compile_demo(src, check, args='bus.fbd', files=None):
    """demo which compiles src and runs python check with variables rc, out, err, bus"""
    t = ''
    fs = dict(files or {}); fs['bus.fbd'] = src
    for f, s in fs.items():
        d = os.path.dirname(f)
        if d: t += f"mkdir -p '{d}'\n"
        t += f"cat > '{f}' <<'EOF'\n{s}\nEOF\n" if not s.endswith('\n') else f"cat > '{f}' <<'EOF'\n{s}EOF\n"
    t += f'timeout 60 "$R/fbdl" {args} > out 2> err; echo $? > rc\n'
    t += "python3 - <<'EOF'\nimport json, sys\nrc = int(open('rc').read()); out = open('out').read(); err = open('err').read()\n"
    t += "bus = json.loads(out) if rc == 0 else None\n"
    t += "def by(kind, name, b=None):\n    return [x for x in (b or bus)[kind] if x['Name'] == name][0]\n"
    t += check.strip() + "\nEOF\n"
    return t
