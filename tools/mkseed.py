#!/usr/bin/env python3
"""mkseed.py SPEC.py: make /verif/seeded/<id> from a spec (id, prop, needs, breaks,
edits=[(file, old, new)], demo=Go source), confirming on /repo (put back afterwards)
that it builds, passes the stable tests, and that the demo tells; then run the check."""
import subprocess, sys, os, json, shutil
spec = {'flags': '', 'check': True}
exec(open(sys.argv[1]).read(), spec)
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
d = '/verif/seeded/' + spec['id']
os.makedirs(d, exist_ok=True)
demo = open('/verif/tools/demo.sh').read()
if spec['flags']: demo = demo.replace('${DEMO_FLAGS}', spec['flags'])
open(d + '/demo.sh', 'w').write(demo); os.chmod(d + '/demo.sh', 0o755)
shutil.copy('/verif/harness/go.sum', d + '/gosum.txt')
open(d + '/main.go', 'w').write(spec['demo'])
json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
r = sh('cd /repo && bash %s/demo.sh' % d)
print('clean demo exit', r.returncode, '' if r.returncode == 0 else r.stdout[-1500:])
ok = r.returncode == 0
caught = {}
try:
    for f, old, new in spec['edits']:
        p = '/repo/' + f; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    r = sh('bash /verif/tools/rt.sh'); print('tests:', r.stdout.strip().replace('\n', ' ')[-300:])
    ok = ok and 'missing: []' in r.stdout
    r = sh('cd /repo && bash %s/demo.sh' % d)
    print('patched demo exit', r.returncode, r.stdout[-300:].strip())
    ok = ok and r.returncode != 0
    if spec['check']:
        for p in [spec['prop']] + spec.get('also', []):
            r = sh('cd /verif && bash check.sh %s quick' % p)
            caught[p] = 'VIOLATION property=%s' % p in r.stdout and r.returncode == 1
            print('check', p, 'exit', r.returncode, '|'.join(r.stdout.strip().split('\n')[-4:])[-700:])
finally:
    sh('git -C /repo checkout -- .')
print('KEEP' if ok else 'NOT VALID', spec['id'])
if ok:
    rec = '/verif/tools/seeded.json'
    a = json.load(open(rec)) if os.path.exists(rec) else {}
    a[spec['id']] = caught
    json.dump(a, open(rec, 'w'), indent=1, sort_keys=True)
else:
    shutil.rmtree(d)
