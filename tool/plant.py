"""Development aid: `plant.py ID PROPERTY SPEC` where SPEC is a file holding the
edit groups (format of tool/mutants without header), then a line `==== demo`,
the demo.cc, then `==== needs`, `==== breaks` texts.  Confirms the planted bug
and stores it under seeded/ID."""
import json, os, re, shutil, subprocess, sys
V = '/verif'
R = '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build_test():
    o = sh('bash /opt/vp/build.sh')
    if o.returncode:
        return 'BUILD FAILED ' + (o.stdout + o.stderr)[-800:]
    sh('bash /opt/vp/test.sh /tmp/plant.json')
    st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    pa = set(json.load(open('/tmp/plant.json'))['passed'])
    return sorted(st - pa)
def main():
    i, prop, spec = sys.argv[1:4]
    checks = sys.argv[4:] or [prop]
    s = open(spec).read()
    parts = re.split(r'\n==== (\w+)\n', '\n' + s)
    eds = re.findall(r'file: (\S+)\n<<<\n(.*?)\n---\n(.*?)\n?^>>>$', parts[0], re.S | re.M)
    sec = dict(zip(parts[1::2], parts[2::2]))
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'dirty repo'
    d = '%s/seeded/%s' % (V, i)
    os.makedirs(d, exist_ok=True)
    ok = False
    try:
        for f, old, new in eds:
            p = os.path.join(R, f if f.startswith('py/') else 'cxx/' + f)
            t = open(p).read()
            assert t.count(old) >= 1, 'text not found in ' + f + ': ' + old[:80]
            open(p, 'w').write(t.replace(old, new, 1))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
        if 'demo' in sec:
            open(d + '/demo.cc', 'w').write(sec['demo'].strip() + '\n')
            shutil.copy(V + '/tool/demo.sh', d + '/demo.sh')
        else:
            open(d + '/demo.sh', 'w').write(sec['sh'].strip() + '\n')
        json.dump({'property': prop, 'needs': sec['needs'].strip(), 'what_it_breaks': sec['breaks'].strip()},
                  open(d + '/meta.json', 'w'), indent=1)
        r = build_test()
        print('tests missing with patch:', r)
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        print('demo with patch:', r1.returncode, (r1.stdout + r1.stderr)[-300:])
        for c in checks:
            k = sh('python3 %s/checks/%s.py' % (V, c.lower()), cwd=V, env=dict(os.environ, SA_EVID='/tmp/plantev'))
            print('check %s: %d %s' % (c, k.returncode, k.stdout.strip()[-300:]))
    finally:
        sh('git -C %s checkout -- .' % R)
        sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    print('demo unchanged:', r0.returncode, (r0.stdout + r0.stderr)[-300:])
    ok = r == [] and r1.returncode not in (0, 2) and r0.returncode == 0
    print('PLANTED' if ok else 'NOT A VALID PLANT', i)
main()
