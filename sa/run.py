"""Check one property:  python3 sa/run.py Cxx [--repo DIR]   (VERIF_TIER, VERIF_SEED)

exit 0: no disagreement with the property found; 1 with a VIOLATION line: one was; 2: the analysis is broken."""
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(12000)

LIMIT = {'quick': 420, 'thorough': 820}       # seconds for one check
FILTER = {'quick': 25, 'thorough': 45}        # seconds of separation testing for one obligation


def spec_modules(prop):
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, 'specs'))):
        if f.endswith('.py') and f[0] == 'c':
            src = open(os.path.join(HERE, 'specs', f)).read()
            if re.search(r"@ob\(\[?['C0-9, ]*\b%s\b" % prop, src):
                out.append(f[:-3])
    return out


def judge(E, o, tier, seed, asserts=True):
    """run one obligation; a plain-data result"""
    from sa.sample import separate, seeded_all, witness
    from sa import seeds
    E, o = E.where_without(o)
    lost = [(m, line) for (m, line), why in E.poisons.items() if m.startswith('bitcoinx') and why == 'raises ModuleNotFoundError']
    if E.without and lost:
        r = undecided(o, asserts, '')
        r.update(undecided=[], violation=dict(
            obligation=o.name, entry=o.code, mode='', what='the package does not load', path_condition=[], trace=[],
            got=f'import of {lost[0][0]} fails', expected='the package loads', raised_at=f'{lost[0][0]} line {lost[0][1]}',
            valuation=[f'not installed: {" ".join(E.without)}']))
        return r
    gen = getattr(seeds, o.kw['seeds']) if o.kw.get('seeds') else None
    o.paths = o.agree = o.cut = o.ok = 0
    o.mismatch, o.undec, o.time = [], [], 0.0
    E.check(o, tier, asserts)
    res = dict(name=o.name, entry=o.code, mode='' if asserts else 'asserts erased', paths=o.paths, agree=o.agree,
               ok=o.ok, cut=o.cut, undecided=sorted(set(str(u) for u in o.undec))[:5], disagree=len(o.mismatch),
               equal=0, unsatisfied=0, violation=None, functions=sorted(str(a) for a in o.anchors))
    t_end = time.time() + FILTER[tier]
    ms = sorted(o.mismatch, key=lambda m: (len(m['guards']), m['what']))
    if gen and len(ms) > 4:
        hit = seeded_all(ms, gen, seed, FILTER[tier] / 2)
        if hit:
            ms = [ms[hit[0]]] + ms[:hit[0]] + ms[hit[0] + 1:]
    else:
        hit = None
    left = len(ms)
    for m in ms:
        rest = t_end - time.time()
        if rest <= 0:
            res['undecided'].append('separation budget')
            break
        r = ('separated', hit[1]) if hit and m is ms[0] else separate(list(m['facts'].lits.items()), *m['terms'], seed=seed, seeds=gen, implied=list(m['facts'].log.items()),
                     seconds=min(2.0 if tier == 'quick' else 4.0, max(0.3, rest / max(1, min(left, 8)))))
        left -= 1
        if r[0] == 'separated':
            res['violation'] = dict(obligation=o.name, entry=o.code, mode=res['mode'], what=m['what'], got=m['code'],
                                    expected=m['want'], path_condition=[f'{"" if p else "not "}({a})'
                                                                        for a, p in m['guards']][:40],
                                    raised_at=m['site'], trace=m['trace'][-60:], valuation=witness(r[1]))
            break
        if r[0] == 'equal':
            res['equal'] += 1
        else:
            res['unsatisfied'] += 1
    if res['equal'] + res['unsatisfied'] and not res['violation']:
        res['undecided'].append(f"{res['equal']} disagreements of form only, {res['unsatisfied']} on paths shown by no valuation")
    res['time'] = round(o.time, 2)
    return res


def main():
    prop = sys.argv[1]
    repo = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv else os.environ.get('VERIF_REPO', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in LIMIT else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from sa.oblig import Engine, Anchor
    from sa import rules
    specs = spec_modules(prop)
    myrules = rules.for_property(prop)
    if not specs and not myrules:
        print(f'no obligations for {prop}')
        return 2
    try:
        E = Engine(repo, specs)
    except Anchor as e:
        print(f'ANALYSIS-BROKEN property={prop}: {e}')
        return 2
    obs = [o for o in E.obs if prop in o.prop.split()]
    jobs = []
    for j, o in enumerate(obs):
        if o.kw.get('thorough') and tier != 'thorough':
            continue
        jobs.append((j, True))
        if o.kw.get('erase'):
            jobs.append((j, False))
    results, broken = pool(E, obs, jobs, tier, seed, t0 + LIMIT[tier])
    ruleres = []
    for r in myrules:
        try:
            ruleres.append(r(E, repo))
        except Anchor as e:
            broken.append(f'{r.__name__}: {e}')
    return report(prop, tier, seed, t0, results, ruleres, broken, len(jobs), repo)


def undecided(o, asserts, why):
    return dict(name=o.name, entry=o.code, mode='' if asserts else 'asserts erased', paths=0, agree=0, ok=0, cut=0,
                undecided=[why], disagree=0, equal=0, unsatisfied=0, violation=None, functions=[], time=0)


def pool(E, obs, jobs, tier, seed, t_end):
    import multiprocessing as mp
    from sa.oblig import Anchor
    n = min(8, max(1, len(jobs)))
    q, out = mp.SimpleQueue(), mp.SimpleQueue()
    order = sorted(range(len(jobs)), key=lambda i: -obs[jobs[i][0]].kw.get('cost', 0))
    for i in order:
        q.put(i)
    for _ in range(n):
        q.put(None)

    def work():
        while True:
            i = q.get()
            if i is None:
                return
            j, asserts = jobs[i]
            try:
                out.put((i, 'ok', judge(E, obs[j], tier, seed, asserts)))
            except Anchor as e:
                out.put((i, 'ok', undecided(obs[j], asserts, f'entry point gone: {e}')))
            except RecursionError:
                out.put((i, 'ok', undecided(obs[j], asserts, 'analysis depth')))
            except Exception:
                t = traceback.format_exc()
                out.put((i, 'ok', undecided(obs[j], asserts, 'analysis error: ' + t.strip().split('\n')[-1][:200]
                                            + ' at ' + ''.join(re.findall(r'line \d+, in \w+', t)[-1:]))))
    results, broken = {}, []
    if not jobs:
        return results, broken
    ps = [mp.get_context('fork').Process(target=work, daemon=True) for _ in range(n)]
    for p in ps:
        p.start()
    got = 0
    while got < len(jobs):
        if out._reader.poll(0.5):
            i, k, v = out.get()
            got += 1
            if k == 'ok':
                results[i] = v
            else:
                broken.append((k, v))
        elif time.time() > t_end or not any(p.is_alive() for p in ps):
            break
    for p in ps:
        p.kill()
    for i in range(len(jobs)):
        if i not in results and got < len(jobs):
            j, asserts = jobs[i]
            results[i] = undecided(obs[j], asserts, 'check time limit')
    return results, broken


def known(prop):
    """obligation/construct keys of recorded findings: lines  known: property=Cxx key=<key> <what>"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def report(prop, tier, seed, t0, results, ruleres, broken, njobs, repo):
    rs = [results[i] for i in sorted(results)]
    viols = [r['violation'] for r in rs if r['violation']]
    for x in ruleres:
        viols += x['violations']
    kn = known(prop)
    fresh = []
    for v in viols:
        key = v['obligation']
        if key in kn:
            print(f'KNOWN-FINDING: property={prop} {kn[key]}')
        else:
            fresh.append(v)
    funcs = sorted({f for r in rs for f in r['functions']} | {f for x in ruleres for f in x.get('functions', [])})
    full = [r for r in rs if not r['violation'] and not r['undecided'] and r['agree'] and not r['cut']]
    part = [r for r in rs if not r['violation'] and (r['undecided'] or r['cut'] or not r['agree'])]
    rulesites = sum(x['sites'] for x in ruleres)
    cov = dict(
        explanation='Each obligation pairs an entry of the public API, applied to symbolic arguments, with a reference '
                    'function; both are interpreted abstractly from the source text of the current tree, path by path, '
                    'and the normal forms of result, exception class, effects and final argument state are compared on '
                    'every jointly feasible path. Rules are queries over the syntax tree and call graph.',
        obligations=len(rs) + len(ruleres),
        discharged=len(full) + sum(1 for x in ruleres if not x['violations']),
        discharged_within_bounds=[dict(name=r['name'], mode=r['mode'], paths=r['paths'], agree=r['agree'],
                                       cut=r['cut'], undecided=r['undecided']) for r in part],
        paths=sum(r['paths'] for r in rs), paths_agreeing=sum(r['agree'] for r in rs),
        paths_cut_at_loop_bound=sum(r['cut'] for r in rs),
        form_disagreements_not_separated=sum(r['equal'] + r['unsatisfied'] for r in rs),
        functions_analysed=len(funcs), functions=funcs,
        rules=[dict(rule=x['rule'], sites=x['sites'], violations=len(x['violations'])) for x in ruleres],
        samples=[dict(obligation=r['name'], entry=r['entry'], mode=r['mode'], paths=r['paths'], agree=r['agree'])
                 for r in rs[:400]] + [dict(rule=x['rule'], examples=x.get('examples', [])[:6]) for x in ruleres],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, assumptions=ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {len(rs)} obligations ({len(full)} fully, {len(part)} within bounds or undecided), '
          f'{cov["paths"]} paths, {len(ruleres)} rules over {rulesites} sites, {len(funcs)} functions, '
          f'{time.time() - t0:.1f}s')
    for r in part:
        print(f'  bounded/undecided: {r["name"]} {r["mode"]} paths={r["paths"]} agree={r["agree"]} cut={r["cut"]} '
              f'{"; ".join(r["undecided"])[:200]}')
    if fresh:
        rp = os.path.join(VERIF, 'evidence', prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(fresh, f, indent=1, default=str)
        for v in fresh:
            print(f'  {v["obligation"]}: {v.get("entry", "")} {v.get("mode", "")}\n    {v.get("what", "")}: got '
                  f'{str(v.get("got", ""))[:400]}\n    expected {str(v.get("expected", ""))[:400]}\n'
                  f'    when {" and ".join(v.get("path_condition", []))[:600]}\n    e.g. {v.get("valuation")}'
                  f' raised at {v.get("raised_at")}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    for b in broken:
        print(f'ANALYSIS-BROKEN property={prop}: {b}')
    if broken:
        return 2
    if not any(r['agree'] for r in rs) and not rulesites:
        print(f'ANALYSIS-BROKEN property={prop}: nothing was decided')
        return 2
    for x in ruleres:
        if x['sites'] < x.get('floor', 0):
            print(f'ANALYSIS-BROKEN property={prop}: rule {x["rule"]} matched {x["sites"]} sites, expected {x["floor"]}')
            return 2
    return 0


ASSUME = [
    'the models of the Python built-ins and standard-library operations used by the package are faithful',
    'the native library is represented by uninterpreted functions of its inputs with return codes 0/1',
    'hash functions, AES, PBKDF2 and Unicode normalisation are uninterpreted functions of their inputs',
    'loops without a closed form are unrolled to a fixed bound; the paths cut there are counted',
]

if __name__ == '__main__':
    sys.exit(main())
