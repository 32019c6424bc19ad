"""Calibration: run every contract of a module against rewrites (must stay quiet) or mutants (should be reported).

usage: calib.py refactor|mutate N [module-substring] [seed]
"""
import ast
import copy
import json
import os
import random
import sys
import time
from collections import Counter
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import warnings
warnings.simplefilter('ignore')
from sa.repo import Repo, AnalysisError
from sa.compare import Checker
from sa.alias import AliasRule
import refactor
import mutate

INV = json.load(open(os.path.join(ROOT, 'inventory.json')))
KNOWN, VOC = set(INV['functions']), set(INV['vocabulary'])


def functions(tree):
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            out.append(n.name)
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    out.append(n.name + '.' + m.name)
    return out


def find(tree, path, k=0):
    parts = path.split('.')
    body = tree.body
    if len(parts) == 2:
        body = next(n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == parts[0]).body
    c = [n for n in body if isinstance(n, ast.FunctionDef) and n.name == parts[-1]]
    return c[k % len(c)]


def judge(rel, src):
    r = Repo(overlay={rel: src})
    c = Checker(r, KNOWN, VOC)
    mod = rel[:-3].replace('/', '.').replace('.__init__', '')
    out = []
    for p in c.specs[mod].paths():
        for v in c.verdicts(mod + ':' + p):
            out.append((v.status, v.func, v.detail, v.what))
    R = AliasRule(c)
    for p in c.specs[mod].paths():
        r = R.check(mod + ':' + p)
        for line, file, what in (r[1] if r else ()):
            out.append(('violation', p, 'alias', what))
    if hasattr(c, 'check_globals'):
        for v in c.check_globals(mod):
            out.append((v.status, v.func, v.detail, v.what))
    return out


def job(a):
    kind, rel, src, desc = a
    t = time.time()
    try:
        return desc, judge(rel, src), src, time.time() - t, None
    except AnalysisError as e:
        return desc, [('error', '', str(e), '')], src, time.time() - t, None
    except Exception as e:
        import traceback
        return desc, [], src, time.time() - t, traceback.format_exc()


def variants(kind, n, sub, seed):
    rng = random.Random(seed)
    spec = os.path.join(ROOT, 'specs')
    files = []
    for d, ds, fs in os.walk(spec):
        for f in fs:
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), spec)
                if sub in rel:
                    files.append(rel)
    files.sort()
    pool = []
    trees = {}
    for rel in files:
        t = ast.parse(open('/repo/' + rel).read())
        trees[rel] = t
        st = ast.parse(open(os.path.join(spec, rel)).read())
        have = set(functions(st))
        for f in functions(t):
            if f in have:
                pool.append((rel, f))
    made = 0
    tries = 0
    while made < n and tries < n * 50:
        tries += 1
        rel, path = rng.choice(pool)
        t = copy.deepcopy(trees[rel])
        fn = find(t, path, rng.randrange(3))
        if kind == 'refactor':
            names = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                nm = rng.choice(sorted(refactor.REWRITES))
                if refactor.REWRITES[nm](fn, rng, t):
                    names.append(nm)
            if not names:
                continue
            desc = (rel, path, '+'.join(names))
        else:
            d = mutate.mutate(fn, rng)
            if d is None:
                continue
            desc = (rel, path, d)
        ast.fix_missing_locations(t)
        try:
            src = ast.unparse(t)
            compile(src, rel, 'exec')
        except SyntaxError:
            continue
        made += 1
        yield kind, rel, src, desc


def main():
    kind, n = sys.argv[1], int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ''
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    tot = Counter()
    shown = Counter()
    with Pool(8, maxtasksperchild=12) as p:
        for desc, res, src, dt, err in p.imap_unordered(job, variants(kind, n, sub, seed), chunksize=4):
            st = 'CRASH' if err else ('violation' if any(r[0] == 'violation' for r in res) else ('undecided' if any(r[0] == 'undecided' for r in res) else ('error' if res else 'quiet')))
            tot[st] += 1
            want = {'refactor': ('violation', 'CRASH', 'error'), 'mutate': ('quiet', 'undecided', 'CRASH')}[kind]
            if '-u' in sys.argv:
                want = ('undecided', 'CRASH')
            if dt > 30:
                print('SLOW', desc, dt)
            if st in want and shown[st] < 60:
                shown[st] += 1
                if os.path.isdir('/tmp/calib'):
                    import difflib
                    base = ast.unparse(ast.parse(open('/repo/' + desc[0]).read()))
                    d = '/tmp/calib/%s_%d' % (st, shown[st])
                    open(d + '.py', 'w').write('#%s\n' % desc[0] + src)
                    open(d + '.diff', 'w').write(str(desc) + '\n' + '\n'.join(list(difflib.unified_diff(base.split('\n'), src.split('\n'), lineterm='', n=2))) +
                                                 '\n' + '\n'.join(' | '.join(map(str, r)) for r in res))
                print('%s %s' % (st, desc))
                if err:
                    print(err[-600:])
                for r in res[:2]:
                    if r[0] == st:
                        print('     ', r[1], '|', r[2][:150], '|', r[3][:300])
    print(dict(tot))


if __name__ == '__main__':
    main()
