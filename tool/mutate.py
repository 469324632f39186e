"""Development aid: apply small textual edits to a scratch copy of /repo/cxx and
run checks on it.  Reads tool/mutants/*.txt; no registered check uses this.

Format of a block (blocks separated by a line of ====):
  name | C01,C04 | expect        (expect: kill or quiet)
  file: distributions/normal.cc
  <<<
  old text
  ---
  new text
  >>>
(several file/<<< groups may follow one header)."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse(path):
    for blk in open(path).read().split('\n====\n'):
        blk = blk.strip('\n')
        if not blk.strip():
            continue
        head, rest = blk.split('\n', 1)
        name, checks, expect = [x.strip() for x in head.split('|')]
        eds, f = [], None
        for g in re.finditer(r'file: (\S+)\n|<<<\n(.*?)\n---\n(.*?)\n?^>>>$', rest, re.S | re.M):
            f = g[1] or f
            if not g[1]:
                eds.append((f, g[2], g[3]))
        yield name, checks.split(','), expect, eds


def one(m):
    name, checks, expect, eds = m
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree('/repo/cxx', d + '/cxx', ignore=shutil.ignore_patterns('*.o', '*_test', 'assets'))
        for f, old, new in eds:
            p = os.path.join(d, 'cxx', f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, expect, 'TEXT NOT FOUND in ' + f
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        res = []
        for c in checks:
            e = dict(os.environ, SA_REPO=d, SA_EVID=d + '/ev')
            r = subprocess.run([sys.executable, V + '/checks/%s.py' % c.lower()], env=e, capture_output=True, text=True)
            out = r.stdout.strip().split('\n')
            vs = [l for l in out if l.startswith('  ')]
            rc = r.returncode if r.returncode != 1 or 'VIOLATION property=' in r.stdout else 99
            res.append((c, rc, vs[:3] if r.returncode == 1 else (out + r.stderr.strip().split('\n'))[-3:]))
        return name, expect, res
    finally:
        shutil.rmtree(d)


def main():
    pats = sys.argv[1:]
    ms = []
    md = V + '/tool/mutants'
    for f in sorted(os.listdir(md)):
        for m in parse(os.path.join(md, f)):
            if not pats or any(p in m[0] or p in m[1] for p in pats):
                ms.append(m)
    bad = 0
    with ThreadPoolExecutor(7) as pool:
        for name, expect, res in pool.map(one, ms):
            if isinstance(res, str):
                print('??', name, res)
                bad += 1
                continue
            codes = [c for _, c, _ in res]
            ok = (1 in codes) if expect == 'kill' else all(c == 0 for c in codes)
            bad += not ok
            print('ok' if ok else 'MISS' if expect == 'kill' else 'ALARM', name, expect, ' '.join(
                '%s=%d' % (c, r) for c, r, _ in res))
            if not ok or 3 in codes:
                for c, r, o in res:
                    for l in o:
                        print('      ', c, l[:260])
    print('unexpected:', bad, 'of', len(ms))


if __name__ == '__main__':
    main()
