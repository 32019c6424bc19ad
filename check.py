"""Decide one property of /repo from its source.  usage: check.py ID [--tier quick|thorough]

exit 0: holds on everything analysed; exit 1 with a VIOLATION line: broken; 2: the analysis could not run.
"""
import fnmatch
import json
import os
import sys
import time
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')

import props
from sa.repo import Repo, AnalysisError
from sa.compare import Checker, observables
from sa.terms import subterms
from sa.alias import AliasRule
from sa.rules import RULES


def match(quals, pats):
    return [q for q in quals if any(fnmatch.fnmatchcase(q, p) for p in pats)]


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                out.append(line[len('known: property=%s ' % pid):])
    return out


def main(argv):
    pid = argv[1]
    tier = argv[argv.index('--tier') + 1] if '--tier' in argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = next((x for x in props.P if x['id'] == pid), None)
    if p is None:
        print('unknown property %s' % pid)
        return 2
    t0 = time.time()
    inv = json.load(open(os.path.join(ROOT, 'inventory.json')))
    repo = Repo(os.environ.get('VERIF_REPO', '/repo'))
    ch = Checker(repo, set(inv['functions']), set(inv['vocabulary']), trials=1200 if tier == 'quick' else 8000, seed=seed)
    ch.deadline = t0 + (420 if tier == 'quick' else 3000)
    quals = sorted(m + ':' + f for m, s in ch.specs.items() for f in s.paths())
    found, und, samples = [], [], []
    nodes = 0
    own = match(quals, p['contracts'])
    if len(own) < p['floor']:
        print('only %d contracts found, %d expected' % (len(own), p['floor']))
        return 2
    todo = list(own)
    if tier == 'thorough':
        todo += [q for q in ch.callees(own) if q not in set(own)]
    vanished = []
    for q in todo:
        try:
            vs = ch.verdicts(q)
        except AnalysisError as e:
            vs = []
            if ch.replaced(q):
                und.append((q, str(e)))
            else:
                found.append((q.split(':')[1], repo.modules[q.split(':')[0]].rel if q.split(':')[0] in repo.modules else q, 1, 'contract', str(e)))
        for v in vs:
            if v.status == 'violation':
                found.append((v.func, v.file, v.line, 'contract/' + v.detail, v.what))
            else:
                und.append((v.func, v.detail))
        r = ch.cache.get((q, frozenset()))
        if r is not None:
            o = observables(r[2])
            k = sum(1 for _ in subterms([x[0] for x in o.values()]))
            nodes += k
            if len(samples) < 6:
                samples.append({'contract': q, 'file': r[0].module.rel, 'line': r[0].node.lineno, 'value_graph_nodes': k,
                                'effects': len(r[2].effects), 'verdict': 'holds' if not vs else ','.join(sorted({v.status for v in vs}))})
        else:
            vanished.append(q)
    for m in p['globals']:
        try:
            vs = ch.check_globals(m)
        except AnalysisError as e:
            vs = []
            found.append((m, m, 1, 'tables', str(e)))
        for v in vs:
            if v.status == 'violation':
                found.append((v.func, v.file, v.line, 'tables', v.what))
            else:
                und.append((v.func, v.what))
    origins = nalias = 0
    if p['alias']:
        R = AliasRule(ch)
        for q in match(quals, p['alias']):
            try:
                r = R.check(q)
            except AnalysisError:
                continue
            if r is None:
                continue
            nalias += 1
            origins += r[0]
            for line, file, what in r[1]:
                found.append((q.split(':')[1], file, line, 'storage', what))
    rules = {}
    for r in p['rules']:
        name, _, arg = r.partition(':')
        try:
            n, bad = RULES[name](ch, arg)
        except AnalysisError as e:
            n, bad = 0, []
            und.append((r, str(e)))
        rules[r] = n
        for line, file, func, what in bad:
            found.append((func, file, line, name, what))
    # one report per construct
    uniq, seen = [], set()
    for f in found:
        k = f[:2] + (f[3], f[4])
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    known = known_findings(pid)
    fresh = []
    for f in uniq:
        key = '%s: %s' % (f[0], f[4])
        hit = next((k for k in known if key.startswith(k)), None)
        if hit is not None:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit))
        else:
            fresh.append(f)
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {'explanation': 'Value graphs of the anchored functions are built from the current source and compared, observable by observable, with those of the reviewed reference definitions; '
                          'storage sharing, module tables and whole-program rules are decided on the syntax tree. Nothing of /repo is executed.',
           'samples': samples, 'undecided': [list(u) for u in und][:40]}
    if p['contracts']:
        cov.update({'programs': ch.stats['functions'], 'disagreements_checked': ch.stats['observables'], 'value_graph_nodes': nodes,
                    'structurally_identical': ch.stats['identical'], 'algebras_tried': ch.stats['trials'], 'private_functions_merged': len(vanished)})
    if p['globals']:
        cov['table_entries'] = ch.stats['tables']
    if p['alias']:
        cov.update({'storage_functions': nalias, 'storage_origins': origins})
    if rules:
        cov['rule_instances'] = rules
    if not samples:
        cov['samples'] = [{'rule': k, 'instances': v} for k, v in rules.items()]
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump({'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
                   'level': 'translation_validation' if p['contracts'] else 'other', 'coverage': cov,
                   'assumptions': ['the reference definitions in specs/ state the intended behaviour', 'library calls of one name mean the same on both sides',
                                   'no monkey-patching; attributes and names are bound as the source says'],
                   'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}, f, indent=1)
    for u in und[:10]:
        print('undecided: %s: %s' % tuple(u))
    if fresh:
        rp = os.path.join(ev, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for func, file, line, kind, what in fresh:
                f.write('%s:%s: %s: [%s] %s\n' % (file, line, func, kind, what))
        for func, file, line, kind, what in fresh[:12]:
            print('%s:%s: %s: [%s] %s' % (file, line, func, kind, what))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s holds: %d functions, %d observables, %d undecided, %.1f s' % (pid, ch.stats['functions'], ch.stats['observables'], len(und), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv))
    except AnalysisError as e:
        print('analysis error: %s' % e)
        sys.exit(2)
