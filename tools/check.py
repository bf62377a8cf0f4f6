#!/usr/bin/env python3
"""check.py PROPERTY: decides one property symbolically on /repo's current tree."""
import os, sys, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from registry import REG, TRUST

def known_findings(prop):
    r = []; p = os.path.join(VERIF, 'known_findings.json')
    for e in json.load(open(p)) if os.path.exists(p) else []:
        if e.get('property') == prop and e.get('status') == 'open': r.append(e)
    return r

def match(e, root, ev):
    return e['root'] == root and e['msg'] in ev['msg'] and all(ev['model'].get(k) in vs for k, vs in e.get('model', {}).items())

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    R = REG[prop]; crate = R['crate']
    ep = os.path.join(VERIF, 'evidence'); os.makedirs(ep, exist_ok=True); evf = os.path.join(ep, prop + '.json')
    if os.path.exists(evf): os.unlink(evf)
    vs = engine(); log('engine')
    roots = list(R['quick']) + (list(R.get('thorough', [])) if tier == 'thorough' else [])
    crates = sorted({root_of(r, crate)[0] for r in roots})
    cached = all(os.path.exists(os.path.join(BUILD, c + '.bc')) for c in crates)
    bcs = {c: bitcode(c) for c in crates}
    outdir = os.path.join(BUILD, 'out', prop); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    rdir = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    limit = (780 if tier == 'quick' else 7200)
    known = known_findings(prop); res = []; viol = []; finds = []; errs = []; validated = 0; nsample = 0
    for r in roots:
        crate, name, args = root_of(r, R['crate'])
        left = limit - (time.time() - T0)
        if left < 20: errs.append('%s: no time left' % name); continue
        x = run_root(vs, bcs[crate], name, args, left if tier == 'quick' else min(left, 3000), outdir)
        res.append(x); log(name, 'paths', x['stats'].get('ok'), 'solver %.1fs' % x['stats'].get('solver_s', 0), 'events', len(x['events']))
        if not x['done']: errs.append('%s: engine ended with %s %s' % (name, x['rc'], x['tail'][-300:]))
        nconf = 0
        for e in x['events']:
            if e['ev'] in ('ERROR', 'BUDGET'): errs.append('%s: %s %s at %s' % (name, e['ev'], e['msg'][:300], e['where'][:200])); continue
            k = [f for f in known if match(f, name, e)]
            if k: finds.append(k[0]['id']); continue
            if nconf >= 3: continue
            # replay the solver's counterexample against the real code
            path = os.path.join(rdir, '%s-%s-%d.model' % (prop, name, len(viol)))
            v, out = replay(crate, name, e['model'], path, 'dev')
            if v in ('ok', 'void'):
                v, out = replay(crate, name, e['model'], path, 'release')
            if v in ('violation', 'abort', 'hang'):
                viol.append({'root': name, 'msg': e['msg'], 'where': e['where'], 'model': e['model'], 'replay': path, 'native': out[-800:]}); nconf += 1
            else: errs.append('%s: counterexample not reproduced natively (%s): %s %s' % (name, v, e['msg'][:200], json.dumps(e['model'])[:400]))
        # the engine against the real code: models of finished paths must pass natively
        if not viol:
            for sm in x['samples'][:R.get('validate', 2)]:
                path = os.path.join(rdir, '%s-sample.model' % prop); v, out = replay(crate, name, sm, path, 'dev'); nsample += 1
                if v in ('ok', 'void'): validated += 1
                else: errs.append('%s: a path the engine finished fails natively: %s %s' % (name, json.dumps(sm)[:300], out[-300:]))
        for c in R.get('covers', {}).get(name, []):
            if not x['covers'].get(c) and not x['events']: errs.append('%s: vacuous, nothing reached "%s"' % (name, c))
        if viol and tier == 'quick': break
    S = lambda k: sum(x['stats'].get(k, 0) for x in res)
    funcs = {}
    for x in res:
        for n, c in x['funcs'].items(): funcs[n] = funcs.get(n, 0) + c
    if not viol and S('ok') + S('tolerated') == 0 and not errs: errs.append('no path finished')
    cov = {'states': int(S('ok') + S('tolerated') + S('fail') + S('panic')), 'transitions': int(S('instr')), 'traces_validated_against_impl': validated,
           'samples': [s for x in res for s in x['samples'][:2]][:12],
           'paths_finished': int(S('ok')), 'branches_decided_infeasible': int(S('infeasible')), 'forks': int(S('forks')), 'states_merged': int(S('merges')),
           'assertions': int(S('asserts')), 'assertions_symbolic': int(S('assertsSym')), 'undecided_branches_taken_both_ways': int(S('undecided')),
           'solver_queries': int(S('queries')), 'solver_calls': int(S('z3') + S('fpq')), 'ieee_queries': int(S('fpq')), 'solver_seconds': round(S('solver_s'), 2),
           'slowest_query_seconds': round(max([x['stats'].get('maxq_s', 0) for x in res] or [0]), 2),
           'harness_roots': {x['root']: {'paths': int(x['stats'].get('ok', 0)), 'assertions': int(x['stats'].get('asserts', 0)), 'queries': int(x['stats'].get('queries', 0)), 'solver_s': round(x['stats'].get('solver_s', 0), 2), 'covers': x['covers']} for x in res},
           'functions_encoded': sorted(n for n in funcs)[:400], 'bounds': R['bounds'], 'outside_bounds': R['outside'],
           'meaning': 'states: symbolic paths finished (each stands for every input that takes it); transitions: LLVM instructions executed symbolically; traces_validated_against_impl: solver models of finished paths that were re-run natively and passed', 'build_reused': cached}
    j = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': TRUST + R.get('assume', []), 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
         'known_findings': sorted(set(finds)), 'errors': errs[:20], 'violation_details': viol[:10]}
    json.dump(j, open(evf, 'w'), indent=1)
    for e in known:
        if e['id'] in finds: print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    for e in errs[:12]: print('CHECK-ERROR ' + e)
    if viol:
        for v in viol:
            print('  %s: %s' % (v['root'], v['msg'][:400])); print('  inputs: ' + json.dumps(v['model'])[:1500]); print('  native: ' + v['native'].strip()[-400:])
        print('VIOLATION property=%s replay=%s' % (prop, viol[0]['replay'])); sys.exit(1)
    if errs: sys.exit(2)
    print('OK property=%s paths=%d queries=%d solver=%.1fs wall=%.1fs' % (prop, cov['states'], cov['solver_queries'], cov['solver_seconds'], j['wall_s']))
main()
