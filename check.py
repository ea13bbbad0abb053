#!/usr/bin/env python3
"""Run one property's check: symbolic exploration of every case, evidence, verdict."""
import sys, os, json, time, argparse, importlib, multiprocessing as mp, re, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def parse():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    return ap.parse_args()


def monitor():
    """record which functions of /repo run"""
    seen = set()
    mon = sys.monitoring
    TID = 4
    try:
        mon.use_tool_id(TID, 'symx')
    except ValueError:
        return seen
    def start(code, off):
        f = code.co_filename
        if '/repo/pynare/' in f:
            seen.add(f.split('/repo/')[1][:-3].replace('/', '.') + '.' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(TID, mon.events.PY_START, start)
    mon.set_events(TID, mon.events.PY_START)
    return seen


def run_case(modname, idx, tier, seed, deadline, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        seen = monitor()
        from symx import engine
        mod = importlib.import_module(modname)
        case = mod.cases(tier)[idx]
        opts = dict(case.get('opts') or {})
        opts['deadline'] = min(deadline, time.time() + opts.get('budget', 1e9))
        t = time.time()
        r = engine.explore(case['fn'], case.get('params', {}), case.get('patch'), opts, seed)
        r['wall'] = time.time() - t
        r['functions'] = sorted(seen)
        conn.send(r)
    except BaseException as e:
        conn.send({'error': traceback.format_exc()})
    finally:
        conn.close()


def main():
    a = parse()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    modname = 'harness.' + a.property.lower()
    mod = importlib.import_module(modname)
    ids = mod.PROPERTY
    if a.replay:
        return replay(mod, a)
    cases = mod.cases(a.tier)
    limit = 780 if a.tier == 'quick' else 6*3600
    deadline = t0 + limit
    todo = [i for i in range(len(cases)) if not a.case or re.search(a.case, cases[i]['name'])]
    todo.sort(key=lambda i: -cases[i].get('weight', 1))
    running, results = {}, {}
    ctx = mp.get_context('fork')
    stop = False
    while todo or running:
        while todo and len(running) < a.j and not stop:
            i = todo.pop(0)
            pr, pc = ctx.Pipe(False)
            p = ctx.Process(target=run_case, args=(modname, i, a.tier, seed, deadline, pc))
            p.start()
            pc.close()
            running[i] = (p, pr)
        if stop:
            todo = []
        for i, (p, pr) in list(running.items()):
            if pr.poll(0.01):
                try:
                    results[i] = pr.recv()
                except EOFError:
                    results[i] = {'error': 'worker died'}
                p.join()
                del running[i]
                if a.v:
                    r = results[i]
                    print(cases[i]['name'], r.get('stats'), 'wall %.1f' % r.get('wall', 0), r.get('error', '')[-1500:],
                          'V', r.get('violations'), 'O', r.get('open'), 'E', r.get('escapes'), 'M', r.get('mismatch'), flush=True)
                if results[i].get('violations') and not known(ids, cases[i]['name'], results[i]['violations'][0]):
                    stop = True      # one confirmed violation decides the check
            elif not p.is_alive():
                if not pr.poll(0.2):
                    results[i] = {'error': f'worker ended with code {p.exitcode}'}
                    del running[i]
            elif time.time() > deadline + 60:
                p.kill()
                results[i] = {'error': 'killed at the time limit'}
                del running[i]
        if stop:
            for i, (p, pr) in running.items():
                p.kill()
                p.join()
            running = {}
        time.sleep(0.005)

    tot = dict(paths=0, decisions=0, queries=0, solver_s=0.0, goals=0, proved=0, validated=0)
    viol, knowns, problems, samples, funcs, notes, casedesc = [], [], [], [], set(), set(), []
    for i, r in sorted(results.items()):
        name = cases[i]['name']
        if 'error' in r:
            problems.append(f'{name}: {r["error"]}')
            continue
        for k in tot:
            tot[k] += r['stats'][k]
        funcs |= set(r['functions'])
        notes |= set(r['notes'])
        casedesc.append({'case': name, 'paths': r['stats']['paths'], 'goals': r['stats']['goals'], 'proved': r['stats']['proved']})
        samples += [dict(s, case=name) for s in r['samples']]
        for v in r['violations'] + [dict(m, symbolic='explored path replayed on the unpatched code disagrees') for m in r['mismatch']]:
            k = known(ids, name, v)
            (knowns if k else viol).append((name, v, k))
        problems += [f'{name}: undecided {o}' for o in r['open']] + [f'{name}: {e}' for e in r['escapes']]
        if r['stats']['paths'] == 0 and not r['violations']:
            problems.append(f'{name}: no feasible path (vacuous)')
        elif r['stats']['goals'] == 0 and not r['violations']:
            problems.append(f'{name}: no goal was reached (vacuous)')
    if not viol and not tot['validated'] and not a.case:
        problems.append('no explored path could be validated against the implementation')

    ev = {
        'property': ids, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['decisions'] + tot['paths'],
            'traces_validated_against_impl': tot['validated'],
            'samples': samples[:6] or [{'note': 'no sample'}],
            'exhaustive': not problems and not viol,
            'explanation': 'states = complete symbolic paths of the real code (each stands for every input satisfying its path condition); '
                           'transitions = branch decisions taken by the solver plus path ends',
            'functions_encoded': sorted(funcs), 'bounds': mod.BOUNDS,
            'solver': 'z3', 'solver_queries': tot['queries'], 'solver_seconds': round(tot['solver_s'], 3),
            'assertions': tot['goals'], 'assertions_proved': tot['proved'],
            'cases': casedesc[:400], 'contracts_used': sorted(notes),
            'undecided': problems[:20], 'known_findings': [f'{n}: {k}' for n, v, k in knowns][:20],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(f'{HERE}/evidence/replays', exist_ok=True)
    with open(f'{HERE}/evidence/{ids}.json', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for n, k in sorted({(n, k) for n, v, k in knowns}):
        print(f'KNOWN-FINDING: property={ids} {k}')
    print(f'{ids}: {len(results)}/{len(cases)} cases, {tot["paths"]} paths, {tot["goals"]} assertions ({tot["proved"]} proved), '
          f'{tot["queries"]} queries, solver {tot["solver_s"]:.1f}s, {tot["validated"]} paths validated, wall {time.time()-t0:.1f}s')
    if viol:
        for j, (n, v, _) in enumerate(viol[:3]):
            path = f'{HERE}/evidence/replays/{ids}-{j}.json'
            json.dump({'property': ids, 'case': n, 'tier': a.tier, 'seed': seed, 'witness': v['witness'], 'what': v['what'],
                       'symbolic': v.get('symbolic')}, open(path, 'w'), indent=1, default=str)
            print(f'  case {n}: {v["what"]}\n  inputs {dict(list(v["witness"].items())[:12])}')
            print(f'VIOLATION property={ids} replay={path}')
        return 1
    if problems:
        for p in problems[:8]:
            print('UNDECIDED', p[:1500])
        return 2
    return 0


def known(ids, case, v):
    p = f'{HERE}/known_findings.txt'
    if not os.path.exists(p):
        return None
    for line in open(p):
        m = re.match(r'finding: property=(\S+) case=(\S+) match=/(.*?)/ (.*)', line.strip())
        if m and m.group(1) == ids and re.fullmatch(m.group(2), case) and re.search(m.group(3), ' '.join(map(str, v['what']))):
            return m.group(4)
    return None


def replay(mod, a):
    from fractions import Fraction
    from symx import engine
    d = json.load(open(a.replay))
    case = next(c for c in mod.cases(d.get('tier', 'quick')) if c['name'] == d['case'])
    w = {}
    for k, v in d['witness'].items():
        w[k] = v == 'True' if v in ('True', 'False') else Fraction(v)
    r, det, used = engine.run_concrete(case['fn'], case.get('params', {}), w, d.get('seed', 1), (case.get('opts') or {}).get('tol', 1e-6))
    print(r, det)
    if r == 'violation':
        print(f'VIOLATION property={mod.PROPERTY} replay={a.replay}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
