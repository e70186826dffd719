"""Mutation testing of the checks: small syntactic changes of blmath which pass its tests, against the checks of the file.

    python tools/mutate.py --list FILE...             mutants of these files
    python tools/mutate.py --run OUT.jsonl FILE...    (in copies under /tmp/mut_work; never in /repo)

This is a tool for development; no registered command runs it.
"""
import argparse
import ast
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = '/tmp/mut_work'
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['*']}
FUNC = {'min': ['max'], 'max': ['min'], 'argmin': ['argmax'], 'argmax': ['argmin'], 'floor': ['ceil'], 'ceil': ['floor'], 'any': ['all'],
        'all': ['any'], 'sin': ['cos'], 'cos': ['sin'], 'vstack': ['hstack'], 'hstack': ['vstack'], 'ones': ['zeros'], 'zeros': ['ones'],
        'append': ['extend'], 'round': ['floor'], 'abs': ['negative'], 'mean': ['sum'], 'sum': ['mean'], 'logical_and': ['logical_or'],
        'logical_or': ['logical_and'], 'array': ['asarray'], 'nanmin': ['nanmax'], 'arccos': ['arcsin'], 'copy': ['view']}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()

    def rep(n, text, what, s=None, e=None):
        if s is None:
            s, e = span(n)
        new = (b[:s] + text.encode() + b[e:]).decode()
        if new == src:
            return
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append((n.lineno, what, new))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    inraise = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('format', 'warn'):
            for m in ast.walk(n):
                if m is not n:
                    inraise.add(id(m))
    for fn in [None] + [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        pass
    owner = {}
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            args = [a.arg for a in fn.args.args]
            names = [x for x in args if x not in ('self', 'cls')]
            for m in ast.walk(fn):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id not in names:
                    names.append(m.id)
            for m in ast.walk(fn):
                owner[id(m)] = names
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in inraise:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'cmp ' + o)
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                rep(n, '(%s) %s (%s)' % (seg(n.left), o, seg(n.right)), 'op ' + o)
            rep(n, seg(n.left), 'left only')
            rep(n, seg(n.right), 'right only')
        elif isinstance(n, ast.AugAssign):
            for o in BIN.get(type(n.op), []):
                rep(n, '%s %s= %s' % (seg(n.target), o, seg(n.value)), 'aug ' + o)
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), 'const')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'const')
                rep(n, str(v - 1), 'const')
            elif isinstance(v, float):
                for f in (1.01, 1000.0, 0.001, 0.0):
                    rep(n, repr(v * f if v or f == 1.01 else f), 'const')
            elif isinstance(v, str) and v:
                rep(n, repr(v + 'x'), 'const')
        elif isinstance(n, ast.UnaryOp):
            rep(n, seg(n.operand), 'unary')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, o.join('(%s)' % seg(v) for v in n.values), 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                rep(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for v in rest), 'bool drop')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'cond')
            rep(n.test, 'False', 'cond')
        elif isinstance(n, ast.Expr):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Raise):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'ret')
        elif isinstance(n, ast.Call):
            pos = n.args
            if len(pos) >= 2:
                s, e = span(pos[0])[0], span(pos[1])[1]
                rep(n, '%s, %s' % (seg(pos[1]), seg(pos[0])), 'swap', s, e)
            if len(pos) >= 1 and not isinstance(pos[0], ast.Starred):
                rep(n, seg(pos[0]), 'unwrap')
            if isinstance(n.func, ast.Attribute):
                if not pos and not n.keywords:
                    rep(n, seg(n.func.value), 'unwrap')
                for o in FUNC.get(n.func.attr, []):
                    s, e = span(n.func)
                    rep(n, seg(n.func.value) + '.' + o, 'func ' + o, s, e)
            elif isinstance(n.func, ast.Name):
                for o in FUNC.get(n.func.id, []):
                    rep(n.func, o, 'func ' + o)
            for k in n.keywords:
                s, e = span(k)
                p = b[:s].decode().rstrip()
                if p.endswith(','):
                    rep(k.value, '', 'kw drop', len(p[:-1].encode()), e)
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            rep(n, seg(n.value), 'no T')
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper, n.step):
                if part is not None:
                    rep(part, '', 'slice')
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) in owner and n.id in owner[id(n)]:
            for o in owner[id(n)]:
                if o != n.id:
                    out.append((n.lineno, 'name %s' % o, (b[:span(n)[0]] + o.encode() + b[span(n)[1]:]).decode()))
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, 'True', 'cond')
        elif isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            s, e = span(n.elts[0])[0], span(n.elts[1])[1]
            rep(n, '%s, %s' % (seg(n.elts[1]), seg(n.elts[0])), 'swap', s, e)
    seen, res = {src}, []
    for m in out:
        if m[2] not in seen:
            seen.add(m[2])
            res.append(m)
    return res


def props_of(rel):
    ps = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(line)
        if rel in d['anchors']['files'] and d['id'] != 'C32':
            ps.append(d['id'])
    return ps


def copy_of_repo():
    d = os.path.join(WORK, 'w%d' % os.getpid())
    if not os.path.exists(d):
        os.makedirs(WORK, exist_ok=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git'))
        v = d + '_verif'
        os.makedirs(v)
        for x in ('vf', 'properties.jsonl', 'KNOWN_FINDINGS.txt'):
            s = os.path.join(HERE, x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(v, x))
    return d


def stable_tests(d):
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    rep = d + '_junit.xml'
    e = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--continue-on-collection-errors', '--maxfail=40',
                        '-o', 'junit_family=xunit2', '--junitxml=' + rep, 'blmath'], cwd=d, env=e, capture_output=True, timeout=150)
    except subprocess.TimeoutExpired:
        return False
    import xml.etree.ElementTree as ET
    ok = set()
    try:
        for t in ET.parse(rep).iter('testcase'):
            if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
                ok.add(t.get('classname') + '::' + t.get('name'))
    except (ET.ParseError, OSError):
        return False
    return want <= ok


def one(job):
    rel, line, what, new, scale, quick = job
    d = copy_of_repo()
    orig = open(os.path.join(REPO, rel)).read()
    res = {'file': rel, 'line': line, 'what': what}
    with open(os.path.join(d, rel), 'w') as f:
        f.write(new)
    try:
        if not stable_tests(d):
            res['by'] = 'tests'
            return res
        for p in props_of(rel):
            e = dict(os.environ, VERIF_REPO=d, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
            try:
                r = subprocess.run([PY, '-W', 'ignore', '-m', 'vf.run', p, '--jobs', '1', '--scale', str(scale)], cwd=d + '_verif', env=e, capture_output=True, text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                res['by'] = p + ' timeout'
                return res
            if r.returncode == 1:
                res['by'] = p
                return res
            if r.returncode != 0:
                res['err'] = res.get('err', '') + p + ': ' + r.stderr[-600:]
        a, c = orig.split('\n'), new.split('\n')
        res['by'] = None
        res['diff'] = ['- ' + x for x in a if x not in c] + ['+ ' + x for x in c if x not in a]
        res['new'] = new
        return res
    finally:
        with open(os.path.join(d, rel), 'w') as f:
            f.write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--run')
    ap.add_argument('--scale', type=float, default=0.3)
    ap.add_argument('--names', type=float, default=1.0, help='share of the name mutants')
    ap.add_argument('files', nargs='+')
    a = ap.parse_args()
    jobs = []
    for rel in a.files:
        ms = mutants(os.path.join(REPO, rel))
        import random
        rng = random.Random(rel)
        ms = [m for m in ms if not m[1].startswith('name') or rng.random() < a.names]
        if a.list:
            print(rel, len(ms))
        jobs += [(rel, m[0], m[1], m[2], a.scale, True) for m in ms]
    if a.list:
        return
    done = 0
    with mp.Pool(8) as pool, open(a.run, 'a') as f:
        for r in pool.imap_unordered(one, jobs, chunksize=1):
            done += 1
            f.write(json.dumps(r) + '\n')
            f.flush()
            if done % 50 == 0:
                print(done, len(jobs), flush=True)
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
