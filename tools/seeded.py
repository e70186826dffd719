"""Apply each change in seeded/ to a scratch copy of /repo, run the check of its property on it, and update its rows in seeded/TABLE.md.

    python3 tools/seeded.py [-j N] [ids or properties]

The copies are made under /tmp and removed. (Development only: no check reads seeded/.)
"""
import concurrent.futures
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, executable='/bin/bash', **k)


def one(i, copy):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    r = sh('git apply %s' % os.path.join(d, 'patch.diff'), cwd=copy)
    if r.returncode:
        return i, meta, 'does not apply: ' + r.stderr[:80]
    env = dict(os.environ, VERIF_REPO=copy, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    r = sh('/opt/venv/bin/python -W ignore -m vf.run %s ' % meta['property'], cwd=HERE, env=env)
    sh('git checkout -q -- . ', cwd=copy)
    if r.returncode == 1:
        subs = sorted(set(json.load(open(x)).get('sub', '?') for x in re.findall(r'replay=(\S+)', r.stdout)))
        return i, meta, 'caught by ' + ', '.join(subs)
    return i, meta, 'MISSED (exit %d) %s' % (r.returncode, r.stderr[-100:].replace('\n', ' '))


def main():
    a = sys.argv[1:]
    n = 2
    if a[:1] == ['-j']:
        n, a = int(a[1]), a[2:]
    ids = sorted(x for x in os.listdir(SEEDED) if os.path.exists(os.path.join(SEEDED, x, 'meta.json')))
    if a:
        ids = [i for i in ids if i in a or json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property'] in a]
    base = tempfile.mkdtemp(prefix='seeded')
    q = queue.Queue()
    for k in range(n):
        c = os.path.join(base, str(k))
        shutil.copytree('/repo', c, symlinks=True)
        q.put(c)

    def work(i):
        c = q.get()
        try:
            r = one(i, c)
        finally:
            q.put(c)
        print(i, r[2], flush=True)
        return r
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        rows = list(ex.map(work, ids))
    shutil.rmtree(base)
    # rows of the table which were not run now stay, if their change still exists
    table = os.path.join(SEEDED, 'TABLE.md')
    lines = {m[1]: m[0] for m in re.finditer(r'^\| (\S+) \|.*$', open(table).read(), re.M)} if os.path.exists(table) else {}
    for i, meta, r in rows:
        lines[i] = '| %s | %s | %s | %s |' % (i, meta['property'], meta['what_it_breaks'].replace('|', '/').replace('\n', ' '), r)
    with open(table, 'w') as f:
        f.write('| change | property | what it breaks | result of the quick check of that property |\n|---|---|---|---|\n')
        for i in sorted(lines):
            if os.path.isdir(os.path.join(SEEDED, i)):
                f.write(lines[i] + '\n')
    print('%d of %d caught' % (sum(r[2].startswith('caught') for r in rows), len(rows)))


main()
