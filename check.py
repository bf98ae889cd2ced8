#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only proof|bounded] -- decides one property on /repo's current tree.

Order of business
  1. proof: every unit of the property is re-extracted from /repo, annotated with its contracts and discharged by
     CBMC (unbounded: loops are cut at their invariants).
  2. executable contracts: the same postconditions are evaluated on the real compiled code (bounded search; used to
     find a failing input for a failed obligation, and as the labelled stand-in where no proof unit reaches).
"""
import sys, os, time, json, importlib, traceback, argparse, hashlib, shutil, random, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from lib import prover, build
from lib.ctx import Ctx, Violation

def load_units(names):
    us = []
    for n in names:
        n, _, sel = n.partition(':')
        m = importlib.import_module('units.' + n)
        sel = sel.split(',') if sel else None
        have = {d['name'] for d in m.UNITS}
        for x in sel or []:
            if x not in have: raise KeyError('unit %s:%s' % (n, x))
        for d in m.UNITS:
            if not sel or d['name'] in sel: us.append(prover.Unit(d))
    return us

def run_proofs(units, root, workers=7):
    out = []
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = {ex.submit(prover.run, u, os.path.join(root, u.name)): u for u in units}
        for f in cf.as_completed(futs):
            u = futs[f]
            try: r = f.result()
            except Exception as e:
                r = dict(unit=u.name, functions=u.functions, status='error', obligations=[], reach=[], wall=0, cmd='', note=traceback.format_exc()[-1500:])
            r['assumptions'] = u.assumptions
            out.append(r)
    out.sort(key=lambda r: r['unit'])
    return out

def known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']

def backend(cmd):
    return 'cvc5' if '--cvc5' in cmd else 'z3' if '--z3' in cmd else 'CaDiCaL' if 'cadical' in cmd else 'MiniSat'

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pid = a.prop
    mod = importlib.import_module('props.' + pid)
    ctx = Ctx(pid, tier, seed, build, t0)
    viol = []        # (description, replay data, has_input)
    # ---- proofs run in the background while the bounded part runs
    units = load_units(getattr(mod, 'UNITS', [])) if a.only != 'bounded' else []
    proot = os.path.join(build.scratch(), 'proof')
    ex = cf.ThreadPoolExecutor(1)
    pf = ex.submit(run_proofs, units, proot) if units else None
    binfo = dict(status='none')
    if a.only != 'proof' and hasattr(mod, 'bounded'):
        try:
            mod.bounded(ctx)
            binfo['status'] = 'held'
        except Violation as v:
            viol.append((v.desc, v.data, True)); binfo['status'] = 'violated'
        except build.BuildError as e:
            binfo['status'] = 'not built'; binfo['note'] = str(e)[-1500:]
        except Exception:
            binfo['status'] = 'harness error'; binfo['note'] = traceback.format_exc()[-2500:]
    proofs = pf.result() if pf else []
    ex.shutdown()
    obl = [o for r in proofs for o in r['obligations']]
    ndis = 0
    for r in proofs:
        if r['status'] == 'proved': ndis += len(r['obligations'])
        else: ndis += sum(o['status'] == 'SUCCESS' for o in r['obligations'])
        if r['status'] == 'failed':
            bad = [o for o in r['obligations'] if o['status'] == 'FAILURE']
            viol.append(('obligation failed in unit %s: %s' % (r['unit'], '; '.join('%s [%s]' % (o['desc'], o['name']) for o in bad[:4])),
                         dict(unit=r['unit'], functions=r['functions'], failed=[dict(name=o['name'], desc=o['desc'], trace=prover.brief_trace(o.get('trace'))) for o in bad], cmd=r['cmd']), False))
    # ---- evidence
    proved = [r for r in proofs if r['status'] == 'proved']
    undecided = [dict(unit=r['unit'], status=r['status'], note=r['note'][:400]) for r in proofs if r['status'] not in ('proved', 'failed')]
    level = getattr(mod, 'LEVEL', 'proof' if units else 'exploration')
    cov = {}
    if units:
        cov.update(obligations=len(obl), discharged=ndis,
                   checker_cmd='cbmc 6.11.0 per unit (back end per unit below), e.g. ' + (proofs[0]['cmd'] if proofs else ''),
                   trusted_base=['CBMC 6.11.0 C front end, symbolic execution and back ends (MiniSat 2.2.1 and CaDiCaL built in, cvc5 1.1.2 where a unit says so)', 'gcc -E preprocessing and clang 18 AST used to place the annotations (lib/cutter.py)',
                                 'the contract stubs and assumptions listed under assumptions'],
                   functions_under_contract=sorted({f for r in proofs for f in r['functions']}),
                   units=[dict(unit=r['unit'], status=r['status'], functions=r['functions'], obligations=len(r['obligations']), reach_checks=len(r['reach']), back_end=backend(r['cmd']), seconds=round(r['wall'], 2)) for r in proofs],
                   solver_seconds=round(sum(r['wall'] for r in proofs), 2), undecided_units=undecided)
    cov.update(evaluations=ctx.evals, distinct_nontrivial=len(ctx.distinct), rule=getattr(mod, 'RULE', ''), samples=ctx.samples[:6] or ['(none)'],
               bounded_part=dict(label='bounded, not counted as proved', status=binfo['status'], note=binfo.get('note', ''), counters=ctx.counters, bound=getattr(mod, 'BOUND', '')))
    if level == 'other' and 'explanation' not in cov: cov['explanation'] = getattr(mod, 'RULE', '')
    kf = known(pid); shown = []
    for k in kf:
        if k.get('key') in ctx.findings: shown.append(k)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted({x for r in proofs for x in r['assumptions']}) + list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    # ---- report
    for r in proofs:
        print('proof %-34s %-9s %4d obligations %6.1fs %s' % (r['unit'], r['status'], len(r['obligations']), r['wall'], r['note'][:200].replace('\n', ' ') if r['status'] not in ('proved',) else ''))
    print('bounded %s: %d evaluations, %d distinct nontrivial %s' % (binfo['status'], ctx.evals, len(ctx.distinct), binfo.get('note', '')[-1500:]))
    for k in kf:
        if k.get('key') in ctx.findings or k.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for desc, data in ctx.unlisted:
        viol.append((desc, data, True))
    if not viol and not proved and binfo['status'] not in ('held',):
        print('%s: nothing could be decided' % pid); return 2
    if not viol:
        print('%s held: %d/%d obligations discharged, wall %.1fs' % (pid, ndis, len(obl), time.time() - t0))
        return 0
    rd = os.path.join(VERIF, 'replays', pid); os.makedirs(rd, exist_ok=True)
    withinput = [v for v in viol if v[2]]
    rp = os.path.join(rd, 'violation.json')
    json.dump(dict(property=pid, violations=[dict(what=d, data=x, failing_input=h) for d, x, h in viol]), open(rp, 'w'), indent=1, default=str)
    for d, x, h in viol: print('  ' + d[:600])
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if withinput else ' no-failing-input-found'))
    return 1

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
